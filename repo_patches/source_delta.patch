From 56e88e7eb63d80fca0bdb4594d9ff4b2a9b48617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 01/35] fix: accept URL references shorter than two characters

get_url_type unwrapped the first two characters, so an empty sourceRoot or a
one-character source name panicked.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..29f777d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,10 @@ enum UrlType {
 
 fn get_url_type(input: &str) -> UrlType {
     let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
+    let first = iter.next();
+    let second = iter.next();
+    if first == Some('/') {
+        if second == Some('/') {
             return SchemeRelative;
         }
         return PathAbsolute;
-- 
2.43.0


From 63e066888c3aa457162b4682324030c853303b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 02/35] fix: keep the '?' and '#' delimiters of relative URLs

Url::query and Url::fragment do not include their delimiter (unlike
URL.search and URL.hash), so "a.js?x#y" became "a.jsxy".
---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29f777d..78951d0 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -157,10 +157,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From 52b948e71c8b3f90dce6319101f55fd157dc79b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 03/35] fix: keep directory separators when trimming a file
 name off a URL

The path segments were joined without '/', so sources of a map at
http://host/a/b/x.map were resolved against http://host/ab.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 78951d0..052a72f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -207,7 +207,7 @@ lazy_static! {
             path.pop();
         }
 
-        url.set_path(&path.join(""));
+        url.set_path(&path.join("/"));
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From 176242de326a63c554cc41c5376372d1177c57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 04/35] fix: compute relative URLs from the resolved root and
 target

relative() resolved both against the safe base but then parsed the raw
strings, which panics for every pair of relative or path-absolute URLs.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 052a72f..15da368 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -238,7 +238,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From f59d4da823b7457867bebec9d175e8dbcaba1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 05/35] fix: treat an empty sourceRoot like an absent one

With sourceRoot "" the leading '/' of a path-absolute source was dropped.
---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 15da368..c9c669a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -335,6 +335,9 @@ pub fn compute_source_url(
     // is present in order to make the sources entries behave as if they are relative to the
     // "sourceRoot", as they would have if the two strings were simply concated.
 
+    // An empty "sourceRoot" means the same as no "sourceRoot".
+    let source_root = source_root.filter(|it| !it.is_empty());
+
     let mut source_url = source_url;
     let after = source_url.replacen("/", "", 1);
 
-- 
2.43.0


From 05691a0dd72897adf8d03ad7550b875d706deb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 06/35] fix: normalise an absolute path passed to join

Joining returned an absolute URL verbatim, with its dot segments, while every
other kind of path is normalised.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index c9c669a..19231a2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -256,7 +256,7 @@ fn with_base(url: &str, base: Option<&str>) -> String {
             .unwrap()
             .as_str()
             .to_string(),
-        None => url.to_string(),
+        None => Url::parse(url).unwrap().to_string(),
     }
 }
 
-- 
2.43.0


From b7a96b35c41d4ee72767d99ddcc981117dfd8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:58 +0000
Subject: [PATCH 07/35] fix: encode VLQ values that need all 32 bits

Shifting the value left by one to make room for the sign overflowed an i32:
1 << 30 was encoded as "A" (0), and i32::MIN panicked.
---
 src/base64_vlq.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..7b1470e 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,9 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+fn to_vlq_signed(value: i32) -> i64 {
+    // The sign takes one more bit than an i32 has.
+    let value = value as i64;
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -38,8 +40,8 @@ pub fn base64vlq_encode(value: i32) -> String {
     let mut vlq = to_vlq_signed(value);
 
     loop {
-        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        digit = (vlq & VLQ_BASE_MASK as i64) as i32;
+        vlq >>= VLQ_BASE_SHIFT;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From 6edefdc92e166db7e6def099b1eb756857e437b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 08/35] fix: validate added mappings unless validation is
 skipped

skip_validation was ignored and validate_mapping never called, so an invalid
mapping made serialization panic or loop (generated line 0 emits ';' until the
line counter overflows).
---
 src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index fded665..7a6d8c6 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -38,9 +38,9 @@ impl SourceMapGenerator {
     }
 
     pub fn add_mapping(&mut self, mapping: Mapping) {
-        // if (!this._skipValidation) {
-        // 	this._validateMapping(generated, original, source, name);
-        // }
+        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
+            panic!("Invalid mapping: {:?}", mapping);
+        }
         let source: Option<String> = mapping.source.clone();
         let name: Option<String> = mapping.name.clone();
 
-- 
2.43.0


From ca9a3edc2c1a8e95aa8e04fb22bdd6550fcca8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 09/35] fix: omit an absent file from the emitted document

"file":null is not a valid source map; every other absent field is left out.
---
 src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..0f7c102 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -9,6 +9,7 @@ pub struct SourceMapJson {
     pub names: Option<Vec<String>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub mappings: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub file: Option<String>,
     #[serde(rename = "sourceRoot")]
     #[serde(skip_serializing_if = "Option::is_none")]
-- 
2.43.0


From e33aec4ce6896177576b24678ae8e1b5ef668eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 10/35] fix: keep sourcesContent aligned with sources by
 allowing null entries

Sources without content were dropped from the emitted list, which shifted the
content of every later source to the wrong index, and a document with a null
entry (as the format prescribes) could not be read at all. Reading a list
shorter than the source list indexed out of bounds.
---
 src/consumer.rs   | 7 +++++--
 src/generator.rs  | 7 ++-----
 src/source_map.rs | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..afb886b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -344,7 +344,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => {
+                let count = self.source_map.sources.as_ref().unwrap().len();
+                s.len() >= count && s.iter().take(count).all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -361,7 +364,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index 7a6d8c6..58a7cc8 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,13 +183,10 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
             sources_content = Some(
-                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
-                    .into_iter()
-                    .flatten()
-                    .collect(),
+                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
             );
         }
         SourceMapJson {
diff --git a/src/source_map.rs b/src/source_map.rs
index 0f7c102..ddc5609 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -16,7 +16,7 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From cf6fb0fa3c676ba8b5e8ee7a56029fcb105862a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 11/35] fix: remember the source map URL in
 from_source_map_json

Sources were resolved against the URL but looked up without it, so consumers
made by create_consumer with a URL did not recognise their own source names.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index afb886b..f59a61f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-- 
2.43.0


From 21b8c4de8f5c652492163224f06364edc25f20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 12/35] fix: compare 1-based lines in original_position_for

The decoded (0-based) line was compared with the 1-based argument, so every
lookup that hit the right line returned None and one that slid to the next
line was accepted.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f59a61f..3bbfba7 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -318,7 +318,7 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                if (mapping.generated_line + 1) as i32 == generated_line {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From e9f6d838516fb2082e0919ab0ea64661801c7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 13/35] fix: report a 1-based original line from
 generated_position_for

Every other Position in the API is 1-based, including this function's own
original_line argument.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 3bbfba7..019c8e5 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -428,7 +428,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
-- 
2.43.0


From 9d1b7807d2bf23938412f8c870443bdd708c3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 14/35] fix: look names up by name index in
 generated_position_for

The source index was used as an index into names, which returned a wrong name
for nameless mappings too, or panicked when there are fewer names.
---
 src/consumer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 019c8e5..a7ce264 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -436,9 +436,11 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
-                        }),
+                        name: mapping
+                            .original
+                            .as_ref()
+                            .and_then(|it| it.name)
+                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
                         last_generated_column: last_column,
                     })
                 } else {
-- 
2.43.0


From e43ca3723821abdada1fad392cb59c03ed23f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 15/35] fix: convert the line to 0-based in
 all_generated_position_for

The mappings of the line after the requested one were returned.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index a7ce264..9867ef0 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -268,7 +268,7 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
+                (original_line - 1) as u32,
                 Some(original_column as u32),
             )
             .cloned()
-- 
2.43.0


From c3282586e68321e39a1297b23baccfc2b9a9a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 16/35] fix: honour an absent column in
 all_generated_position_for

None was turned into column 0, so only the mappings at the smallest column of
the line were returned instead of all mappings of the line.
---
 src/consumer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 9867ef0..5853418 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -239,7 +239,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -255,7 +254,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.map_or(false, |it| it < 0) {
             panic!("Column numbers must be >= 0");
         }
 
@@ -269,7 +268,7 @@ impl BasicConsumer {
             .all_generated_locations_for(
                 source as u32,
                 (original_line - 1) as u32,
-                Some(original_column as u32),
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From a7b60c9d585218b645f7768f513f7e2550adf636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:16 +0000
Subject: [PATCH 17/35] fix: check section offsets in order, not from racing
 worker threads

The sections are built in parallel and each worker compared its offset with
whichever section happened to be checked before it, so well-ordered maps were
refused (a 64-section map practically always) and unordered ones could be
accepted, depending on scheduling.
---
 src/consumer.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 5853418..4a07b80 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -9,7 +9,6 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
 use std::rc::Rc;
-use std::sync::{Arc, Mutex};
 
 ///
 /// You should always use this function to create consumer
@@ -505,10 +504,22 @@ impl IndexedConsumer {
             panic!("Unsupported version: {}", version);
         }
 
-        let last_offset = Arc::new(Mutex::new(Position {
+        // This has to look at the sections in order, so it can not be part of the
+        // parallel construction below.
+        let mut last_offset = Position {
             line: -1,
             column: 0,
-        }));
+        };
+        for section in source_map.sections.as_ref().unwrap() {
+            let offset = &section.offset;
+            if offset.line < last_offset.line
+                || (offset.line == last_offset.line && offset.column < last_offset.column)
+            {
+                panic!("Section offsets must be ordered and non-overlapping.")
+            }
+
+            last_offset = offset.clone();
+        }
 
         IndexedConsumer {
             source_map: source_map.clone(),
@@ -538,7 +549,6 @@ impl IndexedConsumer {
                     .unwrap()
                     .par_iter()
                     .map({
-                        let last_offset = last_offset;
                         move |section| {
                             if section.url.is_some() {
                                 panic!("Section with url is not supported.");
@@ -547,16 +557,6 @@ impl IndexedConsumer {
                             let line = section.offset.line;
                             let colum = section.offset.column;
 
-                            let mut last_offset = last_offset.lock().unwrap();
-
-                            if line < last_offset.line
-                                || (line == last_offset.line && colum < last_offset.column)
-                            {
-                                panic!("Section offsets must be ordered and non-overlapping.")
-                            }
-
-                            *last_offset = section.offset.clone();
-
                             Section {
                                 generated_offset: Position {
                                     // The offset fields are 0-based, but we use 1-based indices when
-- 
2.43.0


From cd157c93929687ca0f8a8bf374cac29beeadee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 18/35] fix: list the resolved sources of an indexed map

get_sources returned the raw entries, without the sections' source roots and
the map URL, unlike the basic consumer and every lookup's answer.
---
 src/consumer.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 4a07b80..c9fe944 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -581,24 +581,7 @@ impl IndexedConsumer {
         let mut sources: Vec<String> = vec![];
 
         for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    (*self.sections).borrow()[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+            sources.append(&mut (*self.sections).borrow()[i].consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From 938eaf545fa40bf5834d339bbd353354a25cab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 19/35] fix: compare 0-based columns when searching for a
 section

A position exactly at a section's offset was attributed to the section before
it, and the first column of the file to no section at all.
---
 src/consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index c9fe944..2b1929f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -601,7 +601,8 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    // The needle's column is 0-based, the offset's is stored 1-based.
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
-- 
2.43.0


From baf83cc8b3a9ecc1a8ed2167d074910fca64fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 20/35] fix: report whole-file generated positions from an
 indexed map

The generated position in the answer of original_position_for was relative to
the section it came from.
---
 src/consumer.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 2b1929f..e9ff753 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -619,18 +619,30 @@ impl IndexedConsumer {
             .borrow_mut()
             .get_mut(section_index as usize)
             .map(|it| {
-                it.consumer.original_position_for(
-                    Position {
-                        line: needle.line - (it.generated_offset.line - 1),
-                        column: needle.column
-                            - if it.generated_offset.line == needle.line {
-                                it.generated_offset.column - 1
-                            } else {
-                                0
-                            },
-                    },
-                    bias,
-                )
+                let line_shift = it.generated_offset.line - 1;
+                let column_shift = if it.generated_offset.line == needle.line {
+                    it.generated_offset.column - 1
+                } else {
+                    0
+                };
+
+                it.consumer
+                    .original_position_for(
+                        Position {
+                            line: needle.line - line_shift,
+                            column: needle.column - column_shift,
+                        },
+                        bias,
+                    )
+                    .map(|mut mapping| {
+                        // Back to the coordinates of the whole file.
+                        mapping.generated.line += line_shift;
+                        mapping.generated.column += column_shift;
+                        if let Some(it) = &mut mapping.last_generated_column {
+                            *it += column_shift;
+                        }
+                        mapping
+                    })
             })
             .flatten()
     }
-- 
2.43.0


From 4c045d3b362445c294119071a7c1e9437d909c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 21/35] fix: look for source contents in every section of an
 indexed map

The first section that does not list the source panicked before the others
were asked.
---
 src/consumer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index e9ff753..cba77ea 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -665,10 +665,7 @@ impl IndexedConsumer {
         panic_on_missing: Option<bool>,
     ) -> Option<String> {
         for section in (*self.sections).borrow_mut().iter_mut() {
-            if let Some(it) = section
-                .consumer
-                .source_content_for(source, panic_on_missing)
-            {
+            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                 return Some(it);
             }
         }
-- 
2.43.0


From 513c4f1583ebfe61b269a94db17a5f5cb41f98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 22/35] fix: select the section of an indexed map by section
 index

The index of the source within its section was used as the index of the
section, so generated-position lookups asked the wrong section.
---
 src/consumer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index cba77ea..f2d4680 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -678,11 +678,12 @@ impl IndexedConsumer {
         }
     }
 
-    fn find_source_index(&mut self, source: &str) -> Option<i32> {
+    /// The index of the first section that lists the source.
+    fn find_section_index(&mut self, source: &str) -> Option<i32> {
         for i in 0..(*self.sections).borrow().len() {
             let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
+            if consumer.find_source_index(source).is_some() {
+                return Some(i as i32);
             }
         }
 
@@ -701,7 +702,7 @@ impl IndexedConsumer {
         original_column: i32,
         bias: Option<Bias>,
     ) -> Option<Position> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                 let mut generated_position = section.consumer.generated_position_for(
@@ -753,7 +754,7 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                 section
-- 
2.43.0


From 42c2533c3cd17e7345e98f33bf8fb0d425b25b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 23/35] fix: shift by the section offset in indexed
 generated_position_for

The shift was taken from the answer itself instead of the section, the section
list was borrowed a second time while borrowed mutably (a panic for every
lookup that found something), and nothing was returned for the last section.
The end column computed here was never returned.
---
 src/consumer.rs | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f2d4680..9d76cd1 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -712,35 +712,18 @@ impl IndexedConsumer {
                     bias,
                 );
                 if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
+                    let line_shift = section.generated_offset.line - 1;
+                    let column_shift = section.generated_offset.column - 1;
 
                     if generated_position.generated.line == 1 {
                         generated_position.generated.column += column_shift;
-                        if let Some(g) = &mut generated_position.last_generated_column {
-                            *g += column_shift;
-                        }
                     }
+                    generated_position.generated.line += line_shift;
 
-                    if let (Some(last_column), Some(next_section)) = (
-                        generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
-
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
+                    return Some(Position {
+                        line: generated_position.generated.line,
+                        column: generated_position.generated.column,
+                    });
                 }
             }
         }
-- 
2.43.0


From d37382ca1e5f51465f44d435a2fcaa2bc92c81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 24/35] fix: shift by the section offset in indexed
 all_generated_position_for

The shift was taken from the mapping itself (underflowing on line 0), was only
applied when the mapping had an end column, and the section list was borrowed
again while borrowed mutably, which panicked. Lines and end columns of these
records are 0-based and exclusive.
---
 src/consumer.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 9d76cd1..2c1d2dd 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -739,39 +739,39 @@ impl IndexedConsumer {
     ) -> Vec<source_map_mappings::Mapping> {
         let index = self.find_section_index(source);
         if let Some(index) = index {
+            // Where the next section starts ends what runs to the end of that line.
+            let next_offset = (*self.sections)
+                .borrow()
+                .get(index as usize + 1)
+                .map(|it| it.generated_offset.clone());
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+                let line_shift = (section.generated_offset.line - 1) as u32;
+                let column_shift = (section.generated_offset.column - 1) as u32;
+                let computed_column_spans = section.consumer.computed_column_spans;
                 section
                     .consumer
                     .all_generated_position_for(source, original_line, original_column)
                     .iter()
                     .map(|mapping| {
                         let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
 
-                        if mapping.generated_line == 1 {
+                        // Lines of these mappings are 0-based.
+                        if mapping.generated_line == 0 {
                             mapping.generated_column += column_shift;
                             if let Some(g) = &mut mapping.last_generated_column {
                                 *g += column_shift;
-                            } else {
                             }
                         }
+                        mapping.generated_line += line_shift;
 
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
+                        if computed_column_spans && mapping.last_generated_column.is_none() {
+                            if let Some(next_offset) = &next_offset {
+                                if mapping.generated_line == (next_offset.line - 1) as u32 {
                                     mapping
                                         .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
+                                        .replace((next_offset.column - 1) as u32);
                                 }
                             }
-                            mapping.generated_line += line_shift;
                         }
 
                         mapping
-- 
2.43.0


From a7e1f3444d17af1e4005230eabb2d95a1fbe8abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 25/35] fix: enumerate the mappings of an indexed map

each_mapping borrowed the section list while it was borrowed mutably, so it
panicked for every indexed map; it also treated the 0-based lines and
exclusive end columns of the records as 1-based and inclusive.
---
 src/consumer.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 2c1d2dd..890aa05 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -799,12 +799,19 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
+        let next_offsets = (*self.sections)
+            .borrow()
+            .iter()
+            .skip(1)
+            .map(|it| it.generated_offset.clone())
+            .collect::<Vec<_>>();
+
         (*self.sections)
             .borrow_mut()
             .iter_mut()
             .enumerate()
             .for_each({
-                let sections = &self.sections;
+                let next_offsets = &next_offsets;
                 let f = &f;
 
                 move |(index, section)| {
@@ -818,30 +825,33 @@ impl ConsumerTrait for IndexedConsumer {
                     let generated_offset = &mut section.generated_offset;
                     let line_shift = generated_offset.line - 1;
                     let column_shift = generated_offset.column - 1;
+                    let computed_column_spans = section.consumer.computed_column_spans;
                     section.consumer.each_mapping(
                         {
-                            let sections_ref = (**sections).borrow();
                             move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
+                                let next_offset = next_offsets.get(index);
 
                                 let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
+                                // Lines of these mappings are 0-based.
+                                if mapping.generated_line == 0 {
                                     mapping.generated_column += column_shift as u32;
                                     if let Some(it) = &mut mapping.last_generated_column {
                                         *it += column_shift as u32;
                                     }
                                 }
 
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
-                                    {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
+                                mapping.generated_line += line_shift as u32;
+
+                                if computed_column_spans && mapping.last_generated_column.is_none()
+                                {
+                                    if let Some(next_offset) = next_offset {
+                                        if mapping.generated_line == (next_offset.line - 1) as u32 {
+                                            mapping
+                                                .last_generated_column
+                                                .replace((next_offset.column - 1) as u32);
+                                        }
                                     }
                                 }
-                                mapping.generated_line += line_shift as u32;
                                 f(&mapping);
                             }
                         },
-- 
2.43.0


From f8bea1b8ddb5ee87a83cbe37cadc43fdcaead491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 26/35] fix: release the section list before borrowing it
 mutably

Temporaries of a for loop's header live until the loop ends, so looking for a
source in an indexed map panicked on the first section.
---
 src/consumer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 890aa05..ea4b30a 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -680,7 +680,9 @@ impl IndexedConsumer {
 
     /// The index of the first section that lists the source.
     fn find_section_index(&mut self, source: &str) -> Option<i32> {
-        for i in 0..(*self.sections).borrow().len() {
+        // Not in the loop header, where it would stay borrowed throughout the loop.
+        let len = (*self.sections).borrow().len();
+        for i in 0..len {
             let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
             if consumer.find_source_index(source).is_some() {
                 return Some(i as i32);
-- 
2.43.0


From 744b4b7cb4f65db4b3a74fd1dc1e039b3d2861de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 27/35] fix: refuse unsupported versions in plain and embedded
 maps too

Only the outer document of an indexed map was checked; a plain map or a
section of any other version was read as if it were version 3.
---
 src/consumer.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index ea4b30a..c2519c2 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -122,6 +122,7 @@ pub struct BasicConsumer {
 impl BasicConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
+        check_version(source_map.version);
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
@@ -148,6 +149,7 @@ impl BasicConsumer {
     }
 
     pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
+        check_version(source_map.version);
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
@@ -489,6 +491,14 @@ pub struct IndexedConsumer {
 
 const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;
 
+fn check_version(version: i32) {
+    // Once again, Sass deviates from the spec and supplies the version as a
+    // string rather than a number, so we use loose equality checking here.
+    if version != SUPPORTED_SOURCE_MAP_VERSION {
+        panic!("Unsupported version: {}", version);
+    }
+}
+
 impl IndexedConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
@@ -496,13 +506,7 @@ impl IndexedConsumer {
     }
 
     pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
-        let version = source_map.version;
-
-        // Once again, Sass deviates from the spec and supplies the version as a
-        // string rather than a number, so we use loose equality checking here.
-        if version != SUPPORTED_SOURCE_MAP_VERSION {
-            panic!("Unsupported version: {}", version);
-        }
+        check_version(source_map.version);
 
         // This has to look at the sections in order, so it can not be part of the
         // parallel construction below.
-- 
2.43.0


From 74b8fa9244d79aa5a46d3ee69b3dcbdcd38c628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 28/35] fix: drop the query and fragment of the map URL when
 taking its directory

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 19231a2..8e87ed1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -208,6 +208,9 @@ lazy_static! {
         }
 
         url.set_path(&path.join("/"));
+        // A directory has neither, and joining must not pick them up.
+        url.set_query(None);
+        url.set_fragment(None);
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From 6a4ee75bf4759f3ff46103c6c981829f7a41bdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 29/35] fix: compare mapping positions without overflowing

---
 src/util.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8e87ed1..53e6b6a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,12 +28,12 @@ pub fn strcmp(a: Option<String>, b: Option<String>) -> i32 {
 }
 
 pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
-    let mut cmp = a.generated.line - b.generated.line;
+    let mut cmp = a.generated.line.cmp(&b.generated.line) as i32;
     if cmp != 0 {
         return cmp;
     }
 
-    cmp = a.generated.column - b.generated.column;
+    cmp = a.generated.column.cmp(&b.generated.column) as i32;
     if cmp != 0 {
         return cmp;
     }
@@ -42,13 +42,13 @@ pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
     if cmp != 0 {
         return cmp;
     }
-    if a.original.is_some() && b.original.is_some() {
-        cmp = a.original.as_ref().unwrap().line - b.original.as_ref().unwrap().line;
+    if let (Some(a), Some(b)) = (&a.original, &b.original) {
+        cmp = a.line.cmp(&b.line) as i32;
         if cmp != 0 {
             return cmp;
         }
 
-        cmp = a.original.as_ref().unwrap().column - b.original.as_ref().unwrap().column;
+        cmp = a.column.cmp(&b.column) as i32;
         if cmp != 0 {
             return cmp;
         }
-- 
2.43.0


From ed8765dddede4a1a4575441d36abac8dd204b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:46 +0000
Subject: [PATCH 30/35] fix: keep empty path segments when trimming the file
 name off a map URL

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 53e6b6a..d94b7da 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -203,8 +203,8 @@ lazy_static! {
         let path = url.path().to_string();
         let mut path = path.split('/').collect::<Vec<_>>();
 
-        if !path.last().unwrap().is_empty() {
-            path.pop();
+        if let Some(file) = path.last_mut() {
+            *file = "";
         }
 
         url.set_path(&path.join("/"));
-- 
2.43.0


From ef2cbbc381dc3d5b176b10a5798fd385caed31f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:09 +0000
Subject: [PATCH 31/35] fix: a scheme starts with a letter

A path whose first directory was called '1:' made the consumer panic.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index d94b7da..e6fc615 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -62,7 +62,7 @@ pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
 // the WHATWG URL parsing. This ensures that backslash normalization
 // applies to the path and such.
 const PROTOCOL: &str = "http:";
-const ABSOLUTE_SCHEME: &str = r"^[A-Za-z0-9\+\-\.]+:/";
+const ABSOLUTE_SCHEME: &str = r"^[A-Za-z][A-Za-z0-9\+\-\.]*:/";
 lazy_static! {
     static ref ABSOLUTE_SCHEME_REGEXP: Regex = Regex::new(ABSOLUTE_SCHEME).unwrap();
     static ref PROTOCOL_AND_HOST: String = format!("{}//host", PROTOCOL);
-- 
2.43.0


From 9cc6512e3643b7fa9949b7b9218b8cae1f53f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:32 +0000
Subject: [PATCH 32/35] fix: keep relative references from being read as
 schemes or absolute paths

Normalising './a:b.js' gave 'a:b.js', which is read as a URL of scheme 'a';
the relative form of '/r//x' against '/r' was '/x', and normalising '/.//x'
gave '//x', which is a host. RFC 3986 writes these as './a:b.js', './/x' and
'/.//x'.
---
 src/util.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e6fc615..3105aae 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -156,6 +156,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .collect::<Vec<_>>()
         .join("/");
 
+    // "a:b" would be read as a scheme, "/b" as an absolute path.
+    let first = relative_path.split('/').next().unwrap();
+    if first.contains(':') || (first.is_empty() && !relative_path.is_empty()) {
+        relative_path.insert_str(0, "./");
+    }
+
     if let Some(query) = target_url.query() {
         relative_path.push('?');
         relative_path.push_str(query);
@@ -182,12 +188,23 @@ fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -
         match t {
             Absolute => result,
             SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),
-            PathAbsolute => result.chars().skip(PROTOCOL_AND_HOST.len()).collect(),
+            PathAbsolute => without_host(result.as_str()),
             _ => compute_relative_url(base.as_str(), result.as_str()),
         }
     })
 }
 
+/// The path of a URL on the placeholder host.
+fn without_host(url: &str) -> String {
+    let path = url.replacen(PROTOCOL_AND_HOST.as_str(), "", 1);
+    // "//b" would be read as a host.
+    if path.starts_with("//") {
+        format!("/.{}", path)
+    } else {
+        path
+    }
+}
+
 type UtilityFn = Box<dyn Fn(String) -> String + Sync>;
 
 lazy_static! {
@@ -296,13 +313,10 @@ pub fn join(root: &str, path: &str) -> String {
     }
 
     if root_t == PathAbsolute {
-        return with_base(
+        return without_host(&with_base(
             path,
             Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
-        )
-        .chars()
-        .skip(PROTOCOL_AND_HOST.len())
-        .collect();
+        ));
     }
 
     let base = build_safe_base(format!("{}{}", path, root).as_str());
@@ -342,7 +356,7 @@ pub fn compute_source_url(
     let source_root = source_root.filter(|it| !it.is_empty());
 
     let mut source_url = source_url;
-    let after = source_url.replacen("/", "", 1);
+    let after = format!(".{}", source_url);
 
     if source_root.is_some() && get_url_type(source_url) == PathAbsolute {
         // sourceURL = sourceURL.replace(/^\//, "");
-- 
2.43.0


From 3c68acd5b9f4ecf3426301ddf2abdee021d5c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:33 +0000
Subject: [PATCH 33/35] fix: do not match the final slash of a target with an
 empty directory of the root

The relative form of '/a/' against '/a//x' led to '/a//'.
---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 3105aae..d9834f9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -141,9 +141,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         root_parts.pop_back();
     }
 
+    // The last part of the target is a file, or nothing after a final slash, and not
+    // an empty directory of the root.
     while !target_parts.is_empty()
         && !root_parts.is_empty()
         && target_parts.front().unwrap() == root_parts.front().unwrap()
+        && !(target_parts.len() == 1 && target_parts.front().unwrap().is_empty())
     {
         target_parts.pop_front();
         root_parts.pop_front();
-- 
2.43.0


From bccb7ae4c278c48e90b946b4dd95ddb899b05566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:34 +0000
Subject: [PATCH 34/35] fix: tell 'webpack:/x' from 'webpack:///x' in relative

The relative form of the first against a root of the second kind, joined to
that root, gave the second kind.
---
 src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.rs b/src/util.rs
index d9834f9..45bf3dc 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -253,6 +253,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
     };
 
     if target_url.scheme() != root_url.scheme()
+        || target_url.has_authority() != root_url.has_authority()
         || target_url.username() != root_url.username()
         || target_url.password() != root_url.password()
         || target_url.host() != root_url.host()
-- 
2.43.0


From 1e132cab8e45594c073308a80b00bcc21debeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:35 +0000
Subject: [PATCH 35/35] fix: a map that lists no sources has the contents of
 all of them

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index c2519c2..8350a15 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -348,7 +348,7 @@ impl BasicConsumer {
                 let count = self.source_map.sources.as_ref().unwrap().len();
                 s.len() >= count && s.iter().take(count).all(|it| it.is_some())
             }
-            None => false,
+            None => self.source_map.sources.as_ref().unwrap().is_empty(),
         }
     }
 
-- 
2.43.0

