From ea0292ac3ed4453904da6d5dc7682ffbc38f4e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 01/35] fix: report errors of the final write of a halo2
 substring table

---
 packages/compiler/src/halo2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..ac961de 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -90,6 +90,9 @@ pub(crate) fn gen_halo2_tables(
         for &(cur, next) in &sorted_defs {
             writeln!(writer, "{} {}", cur, next)?;
         }
+
+        // Dropping a BufWriter discards the error of its last write
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From c81c9e2decb5321e2b7fbd06c60c47180f9bf31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 02/35] fix: refuse halo2 substring tables of a raw regex
 instead of panicking

---
 packages/compiler/src/halo2.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index ac961de..ac8d319 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -51,6 +51,16 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
+    if gen_substrs
+        && regex_and_dfa.substrings.substring_boundaries.is_none()
+        && !regex_and_dfa.substrings.substring_ranges.is_empty()
+    {
+        return Err(CompilerError::GenericError(
+            "Halo2 substring tables need a decomposed regex: the start and end states of raw substring definitions are unknown"
+                .to_string(),
+        ));
+    }
+
     let regex_text = dfa_to_regex_def_text(regex_and_dfa);
     std::fs::write(allstr_file_path, regex_text)?;
 
-- 
2.43.0


From c0f14962f622b3b61c83b9d211e7934e00aa3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 03/35] fix: report a missing circom template name instead of
 panicking

---
 packages/compiler/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..8076180 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -77,8 +77,12 @@ fn generate_outputs(
 
     if let Some(circom_file_path) = circom_file_path {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name
-            .expect("circom template name must be specified if circom file path is specified");
+        let circom_template_name = circom_template_name.ok_or_else(|| {
+            CompilerError::GenericError(
+                "circom template name must be specified if circom file path is specified"
+                    .to_string(),
+            )
+        })?;
 
         gen_circom_template(
             regex_and_dfa,
-- 
2.43.0


From 7c7dd50901bb09eec951460929a4ebb350c19bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 04/35] fix: report a decomposed regex without parts instead of
 panicking

---
 packages/compiler/src/regex.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..c9adbda 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -935,6 +935,12 @@ fn add_dfa(net_dfa: &DFAGraph, graph: &DFAGraph) -> DFAGraph {
 pub(crate) fn get_regex_and_dfa(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<RegexAndDFA, CompilerError> {
+    if decomposed_regex.parts.is_empty() {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, at least one part is needed".to_string(),
+        ));
+    }
+
     let mut net_dfa_graph = DFAGraph { states: Vec::new() };
     let mut substring_ranges_array = Vec::new();
     let mut substring_boundaries_array = Vec::new();
-- 
2.43.0


From 6032e89a99c9e8ae6ab745069bb84172306db813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 05/35] fix: close the circom template when no substrings are
 generated

---
 packages/compiler/src/circom.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..b30ed6e 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -980,6 +980,8 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From 2395ce167e9189972e0a51037b3c4de65886df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:23 +0000
Subject: [PATCH 06/35] fix: refuse halo2 tables for a DFA without exactly one
 accept state

---
 packages/compiler/src/halo2.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index ac8d319..fe6912f 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,23 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result containing the text representation of the DFA, or a CompilerError unless the DFA
+/// has exactly one accept state.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
+    let num_accept_states = regex_and_dfa
+        .dfa
+        .states
+        .iter()
+        .filter(|state| state.state_type == "accept")
+        .count();
+    // The table format has room for one accept state only
+    if num_accept_states != 1 {
+        return Err(CompilerError::AcceptNodesError(
+            "The size of accept nodes must be one".to_string(),
+        ));
+    }
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +44,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -61,7 +75,7 @@ pub(crate) fn gen_halo2_tables(
         ));
     }
 
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
-- 
2.43.0


From 4400b7ccccc585e01cdefab7ea3ceb1c52c2665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 07/35] fix: reject a missing circom template name before
 writing halo2 tables

---
 packages/compiler/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 8076180..5922cc2 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -60,6 +60,13 @@ fn generate_outputs(
     num_public_parts: usize,
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
+    // Checked before any file is written, so that a rejected request leaves no output behind
+    if circom_file_path.is_some() && circom_template_name.is_none() {
+        return Err(CompilerError::GenericError(
+            "circom template name must be specified if circom file path is specified".to_string(),
+        ));
+    }
+
     if let Some(halo2_dir_path) = halo2_dir_path {
         let halo2_dir_path = PathBuf::from(halo2_dir_path);
         let allstr_file_path = halo2_dir_path.join("allstr.txt");
@@ -77,12 +84,7 @@ fn generate_outputs(
 
     if let Some(circom_file_path) = circom_file_path {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name.ok_or_else(|| {
-            CompilerError::GenericError(
-                "circom template name must be specified if circom file path is specified"
-                    .to_string(),
-            )
-        })?;
+        let circom_template_name = circom_template_name.unwrap_or_default();
 
         gen_circom_template(
             regex_and_dfa,
-- 
2.43.0


From 5c46e0b18bcb19611c14a4f18107692cf93ae372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 08/35] fix: group a raw regex before anchoring it, so that
 alternatives are anchored too

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index c9adbda..898d64b 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1020,7 +1020,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 27ff68daa88b440a60566302f323b6244a89d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 09/35] fix: a raw regex without substring definitions has no
 public substring

---
 packages/compiler/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 5922cc2..1a856ae 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -33,7 +33,7 @@ fn load_substring_definitions_json(
             serde_json::from_reader(file).map_err(CompilerError::JsonParseError)
         }
         None => Ok(SubstringDefinitionsJson {
-            transitions: vec![vec![]],
+            transitions: vec![],
         }),
     }
 }
-- 
2.43.0


From 4e2745c6f98cc7fa45f36fd4a2bc48b12b0fa413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 10/35] fix: an escaped dollar sign at the end of a regex is
 not an end anchor

---
 packages/compiler/src/regex.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 898d64b..41e7af7 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -111,6 +111,22 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks if a regex ends with an end anchor, that is with a dollar sign that is not escaped.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the regex ends with an end anchor.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    match regex.strip_suffix('$') {
+        Some(rest) => (rest.len() - rest.trim_end_matches('\\').len()) % 2 == 0,
+        None => false,
+    }
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -128,7 +144,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1101,7 +1117,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From 0f75d4e0fc2b694eeb5e15ba3008aa4e6f9bfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 11/35] fix: find the caret of a regex that has character
 classes or nested groups

---
 packages/compiler/src/regex.rs | 68 +++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 41e7af7..4c07636 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -29,6 +29,50 @@ fn create_dfa_config() -> Config {
         .accelerate(true)
 }
 
+/// Skips a character class in a regex string.
+///
+/// # Arguments
+///
+/// * `regex_bytes` - The bytes of the regex pattern.
+/// * `start` - The index of the opening bracket of the class.
+///
+/// # Returns
+///
+/// The index after the closing bracket of the class, or the length of the regex if it is missing.
+fn skip_char_class(regex_bytes: &[u8], start: usize) -> usize {
+    let mut depth = 0usize;
+    let mut idx = start;
+    while idx < regex_bytes.len() {
+        match regex_bytes[idx] {
+            b'\\' => {
+                idx += 2;
+            }
+            b'[' => {
+                depth += 1;
+                idx += 1;
+                if regex_bytes.get(idx) == Some(&b'^') {
+                    idx += 1;
+                }
+                // A closing bracket in the first place stands for itself
+                if regex_bytes.get(idx) == Some(&b']') {
+                    idx += 1;
+                }
+            }
+            b']' => {
+                depth -= 1;
+                idx += 1;
+                if depth == 0 {
+                    return idx;
+                }
+            }
+            _ => {
+                idx += 1;
+            }
+        }
+    }
+    regex_bytes.len()
+}
+
 /// Finds the index of the first caret (^) in a regex string that is not inside parentheses.
 ///
 /// # Arguments
@@ -40,8 +84,9 @@ fn create_dfa_config() -> Config {
 /// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
-    let mut caret_found = false;
+    // The nesting depths of the current position and of the caret
+    let mut depth = 0usize;
+    let mut caret_depth = None;
     let mut idx = 0;
 
     while idx < regex_bytes.len() {
@@ -50,24 +95,23 @@ fn find_caret_index(regex: &str) -> Option<usize> {
                 idx += 2;
             }
             b'(' => {
-                is_in_parenthesis = true;
+                depth += 1;
                 idx += 1;
             }
             b'[' => {
-                idx += 2;
+                idx = skip_char_class(regex_bytes, idx);
             }
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
                 idx += 1;
-                if caret_found {
+                if caret_depth == Some(depth) {
                     break;
                 }
+                depth = depth.saturating_sub(1);
             }
             b'^' => {
-                caret_found = true;
+                caret_depth = Some(depth);
                 idx += 1;
-                if !is_in_parenthesis {
+                if depth == 0 {
                     break;
                 }
             }
@@ -77,11 +121,7 @@ fn find_caret_index(regex: &str) -> Option<usize> {
         }
     }
 
-    if caret_found {
-        Some(idx)
-    } else {
-        None
-    }
+    caret_depth.map(|_| idx.min(regex_bytes.len()))
 }
 
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
-- 
2.43.0


From f502498bd415819a5b0ae23f76a2fe324344573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 12/35] fix: keep the groups of a part apart when extracting,
 instead of rewriting every parenthesis

---
 packages/apis/src/extract_substrs.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..bc254c6 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -43,25 +43,28 @@ pub fn extract_substr_idxes(
     regex_config: &DecomposedRegexConfig,
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
-    // Validate each regex part individually, to throw better errors
+    // Validate each regex part individually, to throw better errors, and number the group of
+    // each part in the full regex: the groups inside a part come between it and the next part
+    let mut group_idxes = vec![];
+    let mut next_group_idx = 1;
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+        let part_regex = Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
             part_index: i,
             regex_def: part.regex_def.clone(),
             error: e,
         })?;
+        group_idxes.push(next_group_idx);
+        next_group_idx += part_regex.captures_len();
     }
 
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
     for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +77,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(group_idxes[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From 1e5762437537e0ffde693730a75741efd9f8af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 13/35] fix: throw errors from the exported compiler functions
 instead of trapping

---
 packages/compiler/src/wasm.rs | 58 +++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/packages/compiler/src/wasm.rs b/packages/compiler/src/wasm.rs
index 97ed29f..463fc37 100644
--- a/packages/compiler/src/wasm.rs
+++ b/packages/compiler/src/wasm.rs
@@ -30,32 +30,52 @@ pub fn genFromDecomposed(
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genFromRaw(rawRegex: &str, substrsJson: &str, circomTemplateName: &str) -> String {
-    let substrs_defs_json: SubstringDefinitionsJson =
-        serde_json::from_str(substrsJson).expect("failed to parse substrs json");
+pub fn genFromRaw(
+    rawRegex: &str,
+    substrsJson: &str,
+    circomTemplateName: &str,
+) -> Result<String, JsValue> {
+    let substrs_defs_json: SubstringDefinitionsJson = serde_json::from_str(substrsJson)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse substrs json: {}", e)))?;
     let regex_and_dfa = create_regex_and_dfa_from_str_and_defs(rawRegex, substrs_defs_json)
-        .expect("failed to convert the raw regex and state transitions to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+        .map_err(|e| {
+            JsValue::from_str(&format!(
+                "failed to convert the raw regex and state transitions to dfa: {}",
+                e
+            ))
+        })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genRegexAndDfa(decomposedRegex: JsValue) -> JsValue {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    let dfa_val_str =
-        serde_json::to_string(&regex_and_dfa).expect("failed to convert the dfa to json");
-    JsValue::from_str(&dfa_val_str)
+pub fn genRegexAndDfa(decomposedRegex: JsValue) -> Result<JsValue, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    let dfa_val_str = serde_json::to_string(&regex_and_dfa).map_err(|e| {
+        JsValue::from_str(&format!("failed to convert the dfa to json: {}", e))
+    })?;
+    Ok(JsValue::from_str(&dfa_val_str))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> String {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> Result<String, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
-- 
2.43.0


From 3f80a0e6d51d47150b0e56d251be77e48e564fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:15 +0000
Subject: [PATCH 14/35] fix: throw an error from padString for a string that
 does not fit

---
 packages/apis/src/wasm.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/wasm.rs b/packages/apis/src/wasm.rs
index 5d31cf8..29f953a 100644
--- a/packages/apis/src/wasm.rs
+++ b/packages/apis/src/wasm.rs
@@ -8,7 +8,15 @@ use wasm_bindgen::prelude::*;
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn padString(str: &str, paddedBytesSize: usize) -> Array {
+pub fn padString(str: &str, paddedBytesSize: usize) -> Result<Array, JsValue> {
+    if str.len() > paddedBytesSize {
+        return Err(JsValue::from_str(&format!(
+            "Failed to pad string: its {} bytes do not fit in {} bytes",
+            str.len(),
+            paddedBytesSize
+        )));
+    }
+
     let padded_bytes = padding::pad_string(str, paddedBytesSize);
 
     let arr = Array::new_with_length(padded_bytes.len() as u32);
@@ -16,7 +24,7 @@ pub fn padString(str: &str, paddedBytesSize: usize) -> Array {
         arr.set(i as u32, JsValue::from(*byte));
     }
 
-    arr
+    Ok(arr)
 }
 
 #[wasm_bindgen]
-- 
2.43.0


From d4cb2eeaf5becd0b0f4b37a2549e048785404b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 15/35] fix: keep exceptions of getters of a regex config from
 unwinding through the extraction functions

---
 packages/apis/src/wasm.rs | 43 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/wasm.rs b/packages/apis/src/wasm.rs
index 29f953a..bebc8d9 100644
--- a/packages/apis/src/wasm.rs
+++ b/packages/apis/src/wasm.rs
@@ -1,7 +1,7 @@
 use crate::extract_substrs::*;
 use crate::*;
 use console_error_panic_hook;
-use js_sys::Array;
+use js_sys::{Array, Object, Reflect};
 use serde_json::Value;
 use std::panic;
 use wasm_bindgen::prelude::*;
@@ -167,7 +167,7 @@ fn parse_js_regex_config(regex_config: JsValue) -> Result<DecomposedRegexConfig,
         })?
     // As object
     } else {
-        serde_wasm_bindgen::from_value(regex_config).map_err(|e| {
+        serde_wasm_bindgen::from_value(copy_js_regex_config(regex_config)?).map_err(|e| {
             let error_msg = simplify_error(&e);
             JsValue::from_str(&error_msg)
         })?
@@ -176,6 +176,45 @@ fn parse_js_regex_config(regex_config: JsValue) -> Result<DecomposedRegexConfig,
     Ok(parsed_config)
 }
 
+// Copies a regex config into plain js objects. An exception thrown by a getter or proxy is caught
+// here: if it unwound through the deserializer, the memory and stack of that call would never be
+// released.
+fn copy_js_regex_config(regex_config: JsValue) -> Result<JsValue, JsValue> {
+    if !regex_config.is_object() {
+        return Ok(regex_config);
+    }
+    let config = copy_js_fields(&regex_config, &["parts"])?;
+    let parts = Reflect::get(&config, &JsValue::from_str("parts"))?;
+    if Array::is_array(&parts) {
+        let len_key = JsValue::from_str("length");
+        let len = Reflect::get(&parts, &len_key)?.as_f64().unwrap_or(0.0) as u32;
+        let copies = Array::new();
+        for i in 0..len {
+            let part = Reflect::get_u32(&parts, i)?;
+            if part.is_object() {
+                let fields = ["is_public", "isPublic", "regex_def", "regexDef"];
+                copies.push(&copy_js_fields(&part, &fields)?);
+            } else {
+                copies.push(&part);
+            }
+        }
+        Reflect::set(&config, &JsValue::from_str("parts"), &copies)?;
+    }
+    Ok(config)
+}
+
+fn copy_js_fields(object: &JsValue, fields: &[&str]) -> Result<JsValue, JsValue> {
+    let copy = Object::new();
+    for field in fields {
+        let key = JsValue::from_str(field);
+        let value = Reflect::get(object, &key)?;
+        if !value.is_undefined() || Reflect::has(object, &key)? {
+            Reflect::set(&copy, &key, &value)?;
+        }
+    }
+    Ok(copy.into())
+}
+
 fn simplify_error(e: &serde_wasm_bindgen::Error) -> String {
     let error_string = e.to_string();
     if let Some(json_error) = serde_json::from_str::<Value>(&error_string).ok() {
-- 
2.43.0


From fa93f5c7765f7369e8efa5608bef8d48f0adc7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 16/35] fix: keep exceptions of getters of a decomposed regex
 from unwinding through the compiler functions

---
 packages/compiler/src/wasm.rs | 62 +++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/wasm.rs b/packages/compiler/src/wasm.rs
index 463fc37..d419063 100644
--- a/packages/compiler/src/wasm.rs
+++ b/packages/compiler/src/wasm.rs
@@ -6,6 +6,64 @@ use wasm_bindgen::prelude::*;
 
 use self::circom::gen_circom_string;
 
+#[wasm_bindgen]
+extern "C" {
+    #[wasm_bindgen(js_namespace = Reflect, js_name = has, catch)]
+    fn reflect_has(object: &JsValue, key: &JsValue) -> Result<bool, JsValue>;
+
+    #[wasm_bindgen(js_namespace = Reflect, js_name = get, catch)]
+    fn reflect_get(object: &JsValue, key: &JsValue) -> Result<JsValue, JsValue>;
+
+    #[wasm_bindgen(js_namespace = Reflect, js_name = set, catch)]
+    fn reflect_set(object: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue>;
+
+    #[wasm_bindgen(js_namespace = Array, js_name = isArray)]
+    fn is_array(value: &JsValue) -> bool;
+
+    #[wasm_bindgen(js_namespace = JSON, js_name = parse, catch)]
+    fn json_parse(json: &str) -> Result<JsValue, JsValue>;
+}
+
+// Copies a decomposed regex into plain js objects. An exception thrown by a getter or proxy is
+// caught here: if it unwound through the deserializer, the memory and stack of that call would
+// never be released.
+fn copy_decomposed_regex(decomposed_regex: JsValue) -> Result<JsValue, JsValue> {
+    if !decomposed_regex.is_object() {
+        return Ok(decomposed_regex);
+    }
+    let config = copy_fields(&decomposed_regex, &["parts"])?;
+    let parts_key = JsValue::from_str("parts");
+    let parts = reflect_get(&config, &parts_key)?;
+    if is_array(&parts) {
+        let len_key = JsValue::from_str("length");
+        let len = reflect_get(&parts, &len_key)?.as_f64().unwrap_or(0.0) as u32;
+        let copies = json_parse("[]")?;
+        for i in 0..len {
+            let key = JsValue::from(i);
+            let part = reflect_get(&parts, &key)?;
+            if part.is_object() {
+                reflect_set(&copies, &key, &copy_fields(&part, &["is_public", "regex_def"])?)?;
+            } else {
+                reflect_set(&copies, &key, &part)?;
+            }
+        }
+        reflect_set(&config, &parts_key, &copies)?;
+    }
+    Ok(config)
+}
+
+fn copy_fields(object: &JsValue, fields: &[&str]) -> Result<JsValue, JsValue> {
+    let copy = json_parse("{}")?;
+    for field in fields {
+        let key = JsValue::from_str(field);
+        let value = reflect_get(object, &key)?;
+        if !value.is_undefined() || reflect_has(object, &key)? {
+            reflect_set(&copy, &key, &value)?;
+        }
+    }
+    Ok(copy)
+}
+
 #[wasm_bindgen]
 #[allow(non_snake_case)]
 pub fn genFromDecomposed(
@@ -51,7 +109,7 @@ pub fn genFromRaw(
 #[wasm_bindgen]
 #[allow(non_snake_case)]
 pub fn genRegexAndDfa(decomposedRegex: JsValue) -> Result<JsValue, JsValue> {
-    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(copy_decomposed_regex(decomposedRegex)?)
         .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
     let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
         JsValue::from_str(&format!(
@@ -68,7 +126,7 @@ pub fn genRegexAndDfa(decomposedRegex: JsValue) -> Result<JsValue, JsValue> {
 #[wasm_bindgen]
 #[allow(non_snake_case)]
 pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> Result<String, JsValue> {
-    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(copy_decomposed_regex(decomposedRegex)?)
         .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
     let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
         JsValue::from_str(&format!(
-- 
2.43.0


From 5e8addc3c8cf423022da799f5f9ebdb4f0313bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 17/35] fix: reject substrings that a circom circuit cannot
 express

---
 packages/compiler/src/circom.rs | 54 +++++++++++++++++++++++++++++++++
 packages/compiler/src/lib.rs    | 14 ++++++---
 2 files changed, 63 insertions(+), 5 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b30ed6e..6de1bfe 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -947,6 +947,59 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
     Ok(circom)
 }
 
+/// Checks that a Circom circuit can be generated for the given regex and DFA.
+///
+/// # Arguments
+///
+/// * `regex_and_dfa` - A reference to the RegexAndDFA struct containing the regex and DFA information.
+/// * `gen_substrs` - A boolean indicating whether to generate substring constraints.
+///
+/// # Returns
+///
+/// A Result indicating success, or a CompilerError for a DFA without transitions and for
+/// substrings whose transitions the circuit cannot express.
+pub(crate) fn check_circom_support(
+    regex_and_dfa: &RegexAndDFA,
+    gen_substrs: bool,
+) -> Result<(), CompilerError> {
+    let state_len = regex_and_dfa.dfa.states.len();
+    if state_len < 2 {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, it must not match the empty string only".to_string(),
+        ));
+    }
+    if !gen_substrs {
+        return Ok(());
+    }
+
+    for (idx, ranges) in regex_and_dfa.substrings.substring_ranges.iter().enumerate() {
+        if ranges.is_empty() {
+            return Err(CompilerError::GenericError(format!(
+                "Invalid substring {}, it has no transitions",
+                idx
+            )));
+        }
+        for &(cur, next) in ranges {
+            if cur >= state_len || next >= state_len {
+                return Err(CompilerError::GenericError(format!(
+                    "Invalid substring {}, the transition from {} to {} is outside the {} states",
+                    idx, cur, next, state_len
+                )));
+            }
+            // The circuit is always in the start state, so every byte would look like a
+            // transition into it
+            if next == 0 {
+                return Err(CompilerError::GenericError(format!(
+                    "Invalid substring {}, it must not return to the start state",
+                    idx
+                )));
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Generates a Circom template file for the given regex and DFA.
 ///
 /// This function creates a Circom file containing the circuit logic for the regex matcher.
@@ -1004,6 +1057,7 @@ pub(crate) fn gen_circom_string(
     regex_and_dfa: &RegexAndDFA,
     template_name: &str,
 ) -> Result<String, CompilerError> {
+    check_circom_support(regex_and_dfa, true)?;
     let circom = gen_circom_allstr(
         &regex_and_dfa.dfa,
         template_name,
diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 1a856ae..458e9ba 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -5,7 +5,7 @@ mod regex;
 mod structs;
 mod wasm;
 
-use circom::gen_circom_template;
+use circom::{check_circom_support, gen_circom_template};
 use errors::CompilerError;
 use halo2::gen_halo2_tables;
 use itertools::Itertools;
@@ -61,10 +61,14 @@ fn generate_outputs(
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
     // Checked before any file is written, so that a rejected request leaves no output behind
-    if circom_file_path.is_some() && circom_template_name.is_none() {
-        return Err(CompilerError::GenericError(
-            "circom template name must be specified if circom file path is specified".to_string(),
-        ));
+    if circom_file_path.is_some() {
+        if circom_template_name.is_none() {
+            return Err(CompilerError::GenericError(
+                "circom template name must be specified if circom file path is specified"
+                    .to_string(),
+            ));
+        }
+        check_circom_support(regex_and_dfa, gen_substrs)?;
     }
 
     if let Some(halo2_dir_path) = halo2_dir_path {
-- 
2.43.0


From 69b2b07b78e716a55a0bce6bd5446a88aa503702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 18/35] fix: leave transitions that no byte takes out of the
 circom circuit

---
 packages/compiler/src/circom.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 6de1bfe..99284f1 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -479,12 +479,17 @@ fn generate_state_transition_logic(
         zero_starting_and_idxes.insert(i, vec![]);
 
         for (prev_i, chars) in rev_graph.get(&i).unwrap_or(&BTreeMap::new()) {
-            if *prev_i == 0 {
-                zero_starting_states.push(i);
-            }
             let mut k = chars.clone();
             k.retain(|&x| x != 0);
             k.sort();
+            // A transition on no byte or on the padding byte only is never taken: the signals of
+            // its components would be left unconstrained
+            if k.is_empty() {
+                continue;
+            }
+            if *prev_i == 0 {
+                zero_starting_states.push(i);
+            }
 
             let mut eq_outputs = vec![];
 
-- 
2.43.0


From 94f62100f2038e3cc4b521bc0129e53ba9d5e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 19/35] fix: keep -h for the halo2 directory without a clash
 with the help flag

---
 packages/compiler/src/bin/compiler.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..700a2b6 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -57,7 +57,11 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    // -h is the halo2 directory, so only the long --help is left for the help
+    #[command(disable_help_flag = true)]
     Decomposed {
+        #[arg(long, action = ArgAction::Help, help = "Print help")]
+        help: Option<bool>,
         #[arg(short, long)]
         decomposed_regex_path: String,
         #[arg(short, long)]
@@ -69,7 +73,10 @@ enum Commands {
         #[arg(short, long)]
         gen_substrs: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
+        #[arg(long, action = ArgAction::Help, help = "Print help")]
+        help: Option<bool>,
         #[arg(short, long)]
         raw_regex: String,
         #[arg(short, long)]
@@ -100,6 +107,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +131,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From 007c589ae254760824f2c97913eb600ae75fab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 20/35] fix: keep the start state of a part apart from the
 parts before it

---
 packages/compiler/src/regex.rs | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 4c07636..e52a41b 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -936,6 +936,47 @@ fn process_accept_state(accept_state: &mut DFAStateNode, start_state: &DFAStateN
     update_state_type(accept_state, start_state);
 }
 
+/// Separates the start state of a DFA graph from the state that its transitions return to.
+///
+/// The start state is about to be merged into the accept states of the preceding parts. If the
+/// graph returned to it, it would return to the transitions of those parts too, so a copy of the
+/// start state takes the place of the start state as the target of transitions. A graph that is
+/// merged into a single accept state that has its ID and no transitions can stay as it is.
+///
+/// # Arguments
+///
+/// * `net_dfa` - A reference to the DFAGraph of the preceding parts.
+/// * `graph` - A mutable reference to the DFAGraph to be modified, whose states are not renamed yet.
+fn separate_start_state(net_dfa: &DFAGraph, graph: &mut DFAGraph) {
+    let is_start_reentered = graph
+        .states
+        .iter()
+        .any(|state| state.transitions.contains_key(&0));
+    let mut accepting_states = net_dfa
+        .states
+        .iter()
+        .filter(|state| state.state_type == "accept");
+    let is_merge_exact = match (accepting_states.next(), accepting_states.next()) {
+        (Some(accept), None) => {
+            accept.state_id == get_max_state(net_dfa) && accept.transitions.is_empty()
+        }
+        _ => net_dfa.states.is_empty(),
+    };
+    if !is_start_reentered || is_merge_exact {
+        return;
+    }
+
+    let copy_id = graph.states.len();
+    let mut copy = graph.states[0].clone();
+    copy.state_id = copy_id;
+    graph.states.push(copy);
+    for state in &mut graph.states {
+        if let Some(chars) = state.transitions.remove(&0) {
+            state.transitions.insert(copy_id, chars);
+        }
+    }
+}
+
 /// Adds a new DFA graph to an existing net DFA graph.
 ///
 /// # Arguments
@@ -1022,6 +1063,8 @@ pub(crate) fn get_regex_and_dfa(
 
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
+        separate_start_state(&net_dfa_graph, &mut dfa_graph);
+
         let max_state_index = net_dfa_graph
             .states
             .iter()
-- 
2.43.0


From 8f87bc2e3e5457d6a6861dbcc867eb66f36a4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 21/35] fix: keep the caret group of a public first part public

The group before the rest of the part was split off as a private part, so
the circuits and tables did not reveal the bytes it matched, unlike the
extraction library.
---
 packages/compiler/src/regex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index e52a41b..8fe07b6 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1048,6 +1048,9 @@ pub(crate) fn get_regex_and_dfa(
 
     let mut end_anchor = false;
 
+    // The transitions of a caret group that was split off from a public part, which are public too
+    let mut public_caret_edges = BTreeSet::new();
+
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
 
@@ -1061,6 +1064,10 @@ pub(crate) fn get_regex_and_dfa(
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
 
+        if i == 0 && caret_position.is_some() && decomposed_regex.parts[1].is_public {
+            public_caret_edges = collect_public_edges(&dfa_graph);
+        }
+
         handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
 
         separate_start_state(&net_dfa_graph, &mut dfa_graph);
@@ -1075,8 +1082,12 @@ pub(crate) fn get_regex_and_dfa(
         dfa_graph = rename_states(&dfa_graph, max_state_index);
 
         if regex.is_public {
-            let (public_edges, (substr_starts, substr_ends)) =
+            let (mut public_edges, (mut substr_starts, substr_ends)) =
                 process_public_regex(regex, &net_dfa_graph, &dfa_graph, max_state_index);
+            if i == 1 && !public_caret_edges.is_empty() {
+                public_edges.append(&mut public_caret_edges);
+                substr_starts.insert(0);
+            }
             substring_ranges_array.push(public_edges);
             substring_boundaries_array.push((substr_starts, substr_ends));
         }
-- 
2.43.0


From c1bc5ecc9cbd7791e60526ccaae46abd5b91d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 22/35] fix: refuse a part that no string matches instead of
 panicking

---
 packages/compiler/src/regex.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 8fe07b6..e576394 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1064,6 +1064,13 @@ pub(crate) fn get_regex_and_dfa(
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
 
+        if dfa_graph.states.is_empty() {
+            return Err(CompilerError::GenericError(format!(
+                "Invalid regex, the part `{}` does not match any string",
+                regex.regex_def
+            )));
+        }
+
         if i == 0 && caret_position.is_some() && decomposed_regex.parts[1].is_public {
             public_caret_edges = collect_public_edges(&dfa_graph);
         }
-- 
2.43.0


From bebd902a138e0a95bdda3cf56b9edb2f2cd19f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 23/35] fix: let a match under an end anchor fill the whole
 message

---
 packages/compiler/src/circom.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 99284f1..0261c74 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -699,9 +699,9 @@ fn generate_accept_logic(
     accept_lines.push("\t}".to_string());
 
     if end_anchor {
-        accept_lines.push("\tsignal end_anchor_check[num_bytes+1][2];".to_string());
+        accept_lines.push("\tsignal end_anchor_check[num_bytes+2][2];".to_string());
         accept_lines.push("\tend_anchor_check[0][1] <== 0;".to_string());
-        accept_lines.push("\tfor (var i = 0; i < num_bytes; i++) {".to_string());
+        accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
         accept_lines.push(
             "\t\tend_anchor_check[i+1][0] <== IsEqual()([i, padding_start[num_bytes]]);"
                 .to_string(),
@@ -711,7 +711,7 @@ fn generate_accept_logic(
         );
         accept_lines.push("\t}".to_string());
         accept_lines
-            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes][1];".to_string());
+            .push("\tout <== is_accepted.out * end_anchor_check[num_bytes+1][1];".to_string());
     } else {
         accept_lines.push("\tout <== is_accepted.out;".to_string());
     }
-- 
2.43.0


From d16313c7d279f665c7013fcb0d930254be64090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 24/35] fix: find the end of the message under an end anchor
 behind zero bytes

---
 packages/compiler/src/circom.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 0261c74..260f1ca 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -469,8 +469,10 @@ fn generate_state_transition_logic(
     lines.push("\t\tstates[i][0] <== 1;".to_string());
 
     if end_anchor {
+        // The position behind the last byte that is not zero so far
+        lines.push("\t\tis_padding[i] <== IsZero()(in[i]);".to_string());
         lines.push(
-            "\t\tpadding_start[i+1] <== IsNotZeroAcc()(padding_start[i], in[i]);".to_string(),
+            "\t\tpadding_start[i+1] <== padding_start[i] + (1 - is_padding[i]) * (i + 1 - padding_start[i]);".to_string(),
         );
     }
 
@@ -626,6 +628,7 @@ fn generate_declarations(
 
     if end_anchor {
         declarations.extend([
+            "\tsignal is_padding[num_bytes];".to_string(),
             "\tsignal padding_start[num_bytes+1];".to_string(),
             "\tpadding_start[0] <== 0;".to_string(),
         ]);
-- 
2.43.0


From 5064e9cdc2bd2f99b58e1a6a7aa5ee5ea90face3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 25/35] fix: reveal only the match at the end of the message
 under an end anchor

---
 packages/compiler/src/circom.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 260f1ca..62615c5 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -777,23 +777,30 @@ fn gen_circom_allstr(
 /// # Arguments
 ///
 /// * `accepted_state` - The index of the accepted state.
+/// * `end_anchor` - A boolean indicating whether an end anchor is present.
 ///
 /// # Returns
 ///
 /// A String containing the generated Circom code for consecutive logic.
-fn write_consecutive_logic(accepted_state: usize) -> String {
+fn write_consecutive_logic(accepted_state: usize, end_anchor: bool) -> String {
+    // Under an end anchor only the match that ends where the message ends counts
+    let accepted = if end_anchor {
+        "(end_anchor_check[num_bytes-i+1][1] - end_anchor_check[num_bytes-i][1])".to_string()
+    } else {
+        format!("states[num_bytes-i][{accepted_state}]")
+    };
     let mut logic = String::new();
     logic += "\n";
     logic += "\tsignal is_consecutive[msg_bytes+1][3];\n";
     logic += "\tis_consecutive[msg_bytes][2] <== 0;\n";
     logic += "\tfor (var i = 0; i < msg_bytes; i++) {\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][0] <== states[num_bytes-i][{accepted_state}] * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
+        "\t\tis_consecutive[msg_bytes-1-i][0] <== {accepted} * (1 - is_consecutive[msg_bytes-i][2]) + is_consecutive[msg_bytes-i][2];\n"
     );
     logic +=
         "\t\tis_consecutive[msg_bytes-1-i][1] <== state_changed[msg_bytes-i].out * is_consecutive[msg_bytes-1-i][0];\n";
     logic += &format!(
-        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), states[num_bytes-i][{accepted_state}], is_consecutive[msg_bytes-1-i][1]]);\n"
+        "\t\tis_consecutive[msg_bytes-1-i][2] <== ORAnd()([(1 - from_zero_enabled[msg_bytes-i+1]), {accepted}, is_consecutive[msg_bytes-1-i][1]]);\n"
     );
     logic += "\t}\n";
     logic
@@ -940,7 +947,7 @@ fn add_substrs_constraints(regex_dfa: &RegexAndDFA) -> Result<String, CompilerEr
         get_accepted_state(&regex_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let mut circom = String::new();
 
-    circom += &write_consecutive_logic(accepted_state);
+    circom += &write_consecutive_logic(accepted_state, regex_dfa.has_end_anchor);
 
     circom += &format!(
         "\t// substrings calculated: {:?}\n",
-- 
2.43.0


From a6f2373d47bc99c4e64cf244c560afd3c4053609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:02 +0000
Subject: [PATCH 26/35] fix: let a public first part start in the start state
 of its halo2 table

---
 packages/compiler/src/regex.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index e576394..066da7d 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -886,7 +886,11 @@ fn process_public_regex(
         return (BTreeSet::new(), (BTreeSet::new(), BTreeSet::new()));
     }
 
-    let (accepting_states, substring_starts) = collect_accepting_states(net_dfa);
+    let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
+    if net_dfa.states.is_empty() {
+        // The first part starts in the start state
+        substring_starts.insert(0);
+    }
     let mut public_edges = collect_public_edges(graph);
     let substring_ends = collect_substr_ends(graph);
 
-- 
2.43.0


From 8cfa54ae5d0c35adb0c74e9313cdd29d34e8a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 27/35] fix: tie a caret in a raw regex to the start of the
 message

---
 packages/compiler/src/regex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 066da7d..6b9ce25 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1202,7 +1202,18 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     regex_str: &str,
     substrs_defs_json: SubstringDefinitionsJson,
 ) -> Result<RegexAndDFA, CompilerError> {
-    let dfa = create_dfa_graph_from_regex(regex_str)?;
+    // A caret stands for the start of the message, which the parts of a decomposed regex can express
+    let dfa = if find_caret_index(regex_str).is_some() {
+        get_regex_and_dfa(&mut DecomposedRegexConfig {
+            parts: VecDeque::from([RegexPartConfig {
+                is_public: false,
+                regex_def: regex_str.to_string(),
+            }]),
+        })?
+        .dfa
+    } else {
+        create_dfa_graph_from_regex(regex_str)?
+    };
 
     let substring_ranges = substrs_defs_json
         .transitions
-- 
2.43.0


From b5f7bd6ac43feff841396d787a6d15cee0591854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:42 +0000
Subject: [PATCH 28/35] fix: extract an address in brackets that has no name
 before it

---
 packages/apis/src/decomposed_defs/from_addr.json | 2 +-
 packages/apis/src/decomposed_defs/to_addr.json   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index 6753257..b409b94 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -6,7 +6,7 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index 394a26b..b8a3b5d 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -6,7 +6,7 @@
     },
     {
       "is_public": false,
-      "regex_def": "([^\r\n]+<)?"
+      "regex_def": "([^\r\n]*<)?"
     },
     {
       "is_public": true,
-- 
2.43.0


From 51d0763315d2b09845589b1f0dcbaf88efaa45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 29/35] fix: keep an extracted from- or to-address within its
 header field

---
 packages/apis/src/decomposed_defs/from_addr.json | 2 +-
 packages/apis/src/decomposed_defs/to_addr.json   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index b409b94..1152228 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -10,7 +10,7 @@
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index b8a3b5d..721851b 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -10,7 +10,7 @@
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
-- 
2.43.0


From d7fad213cd0a64dd76a9d8238675a59754c6f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 30/35] fix: refuse to reveal substrings of a regex that
 matches the empty string

---
 packages/compiler/src/circom.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 62615c5..31faccd 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -986,6 +986,14 @@ pub(crate) fn check_circom_support(
     if !gen_substrs {
         return Ok(());
     }
+    // The circuit is always in the start state, so every transition would look like one of a match
+    if !regex_and_dfa.substrings.substring_ranges.is_empty()
+        && get_accepted_state(&regex_and_dfa.dfa) == Some(0)
+    {
+        return Err(CompilerError::GenericError(
+            "Invalid regex, it must not match the empty string if it has substrings".to_string(),
+        ));
+    }
 
     for (idx, ranges) in regex_and_dfa.substrings.substring_ranges.iter().enumerate() {
         if ranges.is_empty() {
-- 
2.43.0


From 9a3e2e7946076860cf18e86a17333a76dcf18cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 31/35] fix: refuse a caret next to an alternation that is not
 in parentheses

---
 packages/compiler/src/regex.rs | 41 ++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 6b9ce25..0a29028 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -124,6 +124,39 @@ fn find_caret_index(regex: &str) -> Option<usize> {
     caret_depth.map(|_| idx.min(regex_bytes.len()))
 }
 
+/// Checks if a regex has an alternation (|) that is not inside parentheses.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the regex has an alternation that is not inside parentheses.
+fn has_top_level_alternation(regex: &str) -> bool {
+    let regex_bytes = regex.as_bytes();
+    let mut depth = 0usize;
+    let mut idx = 0;
+
+    while idx < regex_bytes.len() {
+        match regex_bytes[idx] {
+            b'\\' => idx += 2,
+            b'[' => idx = skip_char_class(regex_bytes, idx),
+            b'|' if depth == 0 => return true,
+            byte => {
+                match byte {
+                    b'(' => depth += 1,
+                    b')' => depth = depth.saturating_sub(1),
+                    _ => {}
+                }
+                idx += 1;
+            }
+        }
+    }
+
+    false
+}
+
 /// Processes the caret (^) in a regex, splitting it into two parts if necessary.
 ///
 /// # Arguments
@@ -139,6 +172,14 @@ fn process_caret_in_regex(
     let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
 
     if let Some(index) = caret_position {
+        // What is before the alternation and what is after it cannot be split in the same place
+        if has_top_level_alternation(&decomposed_regex.parts[0].regex_def) {
+            return Err(CompilerError::GenericError(format!(
+                "Invalid regex, the alternation in `{}` must be in parentheses because of the caret",
+                decomposed_regex.parts[0].regex_def
+            )));
+        }
+
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
         decomposed_regex.parts.push_front(RegexPartConfig {
             is_public: false,
-- 
2.43.0


From 52a0799b0916066529bc40df9f710d152c48da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 32/35] fix: out was 0 for a message without room for padding
 when the start state accepts under an end anchor

---
 packages/compiler/src/circom.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 31faccd..e6c0a57 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -693,6 +693,10 @@ fn generate_accept_logic(
     let accept_node = *accept_nodes.iter().next().unwrap();
 
     accept_lines.push("".to_string());
+    if accept_node == 0 {
+        // the loop over the bytes leaves the start state after the last one without a value
+        accept_lines.push("\tstates[num_bytes][0] <== 1;".to_string());
+    }
     accept_lines.push("\tcomponent is_accepted = MultiOR(num_bytes+1);".to_string());
     accept_lines.push("\tfor (var i = 0; i <= num_bytes; i++) {".to_string());
     accept_lines.push(format!(
-- 
2.43.0


From ecfb44b62b29672e3ae24b0bde645ff123cbb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 33/35] fix: refuse anchors that the automaton of a part would
 ignore

---
 packages/compiler/src/regex.rs | 73 ++++++++++++++++++++++++++++++++--
 1 file changed, 70 insertions(+), 3 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 0a29028..fd645d0 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -7,9 +7,12 @@ use crate::{
     DecomposedRegexConfig,
 };
 use regex::Regex;
-use regex_automata::dfa::{
-    dense::{Config, DFA},
-    StartKind,
+use regex_automata::{
+    dfa::{
+        dense::{Config, DFA},
+        StartKind,
+    },
+    util::syntax,
 };
 use std::{
     collections::{BTreeMap, BTreeSet, VecDeque},
@@ -208,6 +211,64 @@ fn ends_with_end_anchor(regex: &str) -> bool {
     }
 }
 
+/// Checks that a regex has no anchors or other assertions where its automaton would ignore them.
+///
+/// A part is compiled on its own, so an assertion in it would look at the part, not at the message.
+/// Supported are a caret that is a whole alternative of the leading group (or leads the regex), which
+/// has been split off from the first part, and a dollar sign at the very end of the last part.
+///
+/// # Arguments
+///
+/// * `regex` - The regex of a part.
+/// * `is_caret` - Whether the regex is what was split off because of its caret.
+/// * `is_end_anchor` - Whether the regex ends with the end anchor.
+///
+/// # Returns
+///
+/// A `Result` indicating success or a `CompilerError`.
+fn validate_assertions(
+    regex: &str,
+    is_caret: bool,
+    is_end_anchor: bool,
+) -> Result<(), CompilerError> {
+    let has_assertions = |regex: &str| {
+        // An invalid regex is reported when its automaton is built
+        syntax::parse(regex).is_ok_and(|hir| !hir.properties().look_set().is_empty())
+    };
+
+    if is_end_anchor && has_top_level_alternation(regex) {
+        return Err(CompilerError::GenericError(format!(
+            "Invalid regex, the alternation in `{}` must be in parentheses because of the $",
+            regex
+        )));
+    }
+
+    let is_supported = if is_caret {
+        let group_start = Regex::new(r"^(\((\?(:|P?<[^>]*>))?)?$")?;
+        regex.match_indices('^').any(|(idx, _)| {
+            let (before, after) = (&regex[..idx], &regex[idx + 1..]);
+            !has_assertions(&format!("{}{}", before, after))
+                && (group_start.is_match(before)
+                    || before.strip_suffix('|').is_some_and(|rest| {
+                        (rest.len() - rest.trim_end_matches('\\').len()) % 2 == 0
+                    }))
+                && (after.is_empty() || after.starts_with('|') || after == ")")
+        })
+    } else if is_end_anchor {
+        !has_assertions(&regex[..regex.len() - 1])
+    } else {
+        !has_assertions(regex)
+    };
+
+    if !is_supported {
+        return Err(CompilerError::GenericError(format!(
+            "Invalid regex, `{}` has an anchor or another assertion that is neither at the start nor at the end of the whole regex",
+            regex
+        )));
+    }
+    Ok(())
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -1098,6 +1159,11 @@ pub(crate) fn get_regex_and_dfa(
 
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
+        validate_assertions(
+            &regex.regex_def,
+            i == 0 && caret_position.is_some(),
+            end_anchor,
+        )?;
 
         let dfa = DFA::builder()
             .configure(config.clone())
@@ -1253,6 +1319,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
         })?
         .dfa
     } else {
+        validate_assertions(regex_str, false, ends_with_end_anchor(regex_str))?;
         create_dfa_graph_from_regex(regex_str)?
     };
 
-- 
2.43.0


From 785099a230ea33f8f8ef4ccad2b28b9269404b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 34/35] fix: honour a caret next to alternatives with loops,
 and only in the leading group

---
 packages/compiler/src/regex.rs | 203 +++++++++++++--------------------
 1 file changed, 79 insertions(+), 124 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index fd645d0..59d6ba7 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -211,6 +211,50 @@ fn ends_with_end_anchor(regex: &str) -> bool {
     }
 }
 
+/// Checks if a regex has anchors or other assertions.
+///
+/// # Arguments
+///
+/// * `regex` - A string slice containing the regex pattern.
+///
+/// # Returns
+///
+/// A boolean indicating whether the regex has assertions. It is false for an invalid regex, which is
+/// reported when its automaton is built.
+fn has_assertions(regex: &str) -> bool {
+    syntax::parse(regex).is_ok_and(|hir| !hir.properties().look_set().is_empty())
+}
+
+/// Finds the caret (^) that is a whole alternative of the leading group, or the whole regex.
+///
+/// # Arguments
+///
+/// * `regex` - The regex that was split off from the first part because of its caret.
+///
+/// # Returns
+///
+/// A `Result` containing the index of the caret, or `None` if there is no such caret or if it is not
+/// the only assertion in the regex.
+fn find_start_anchor(regex: &str) -> Result<Option<usize>, CompilerError> {
+    let group_start = Regex::new(r"^(\((\?([a-zA-Z-]*:|P?<[^>]*>))?|$)")?;
+    let start_anchor = regex.match_indices('^').find(|&(idx, _)| {
+        let (before, after) = (&regex[..idx], &regex[idx + 1..]);
+        // The alternatives in the leading group that are before the caret
+        let alternatives = group_start
+            .find(before)
+            .map(|group| &before[group.end()..]);
+        !has_assertions(&format!("{}{}", before, after))
+            && alternatives.is_some_and(|alternatives| {
+                alternatives.is_empty()
+                    || alternatives
+                        .strip_suffix('|')
+                        .is_some_and(|rest| syntax::parse(rest).is_ok())
+            })
+            && (after.is_empty() || after.starts_with('|') || after == ")")
+    });
+    Ok(start_anchor.map(|(idx, _)| idx))
+}
+
 /// Checks that a regex has no anchors or other assertions where its automaton would ignore them.
 ///
 /// A part is compiled on its own, so an assertion in it would look at the part, not at the message.
@@ -231,11 +275,6 @@ fn validate_assertions(
     is_caret: bool,
     is_end_anchor: bool,
 ) -> Result<(), CompilerError> {
-    let has_assertions = |regex: &str| {
-        // An invalid regex is reported when its automaton is built
-        syntax::parse(regex).is_ok_and(|hir| !hir.properties().look_set().is_empty())
-    };
-
     if is_end_anchor && has_top_level_alternation(regex) {
         return Err(CompilerError::GenericError(format!(
             "Invalid regex, the alternation in `{}` must be in parentheses because of the $",
@@ -244,16 +283,7 @@ fn validate_assertions(
     }
 
     let is_supported = if is_caret {
-        let group_start = Regex::new(r"^(\((\?(:|P?<[^>]*>))?)?$")?;
-        regex.match_indices('^').any(|(idx, _)| {
-            let (before, after) = (&regex[..idx], &regex[idx + 1..]);
-            !has_assertions(&format!("{}{}", before, after))
-                && (group_start.is_match(before)
-                    || before.strip_suffix('|').is_some_and(|rest| {
-                        (rest.len() - rest.trim_end_matches('\\').len()) % 2 == 0
-                    }))
-                && (after.is_empty() || after.starts_with('|') || after == ")")
-        })
+        find_start_anchor(regex)?.is_some()
     } else if is_end_anchor {
         !has_assertions(&regex[..regex.len() - 1])
     } else {
@@ -701,104 +731,38 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
     Ok(graph)
 }
 
-/// Modifies the DFA graph to handle the caret (^) anchor at the start of a regex.
-///
-/// # Arguments
-///
-/// * `graph` - A mutable reference to the DFAGraph to be modified.
-///
-/// # Returns
-///
-/// A `Result` containing `()` if successful, or a `CompilerError` if modification fails.
-///
-/// # Function Behavior
-///
-/// 1. Clears the state type of the start state.
-/// 2. Finds the accept state in the graph.
-/// 3. Adds a transition from the start state to the accept state with byte value 255.
-fn modify_graph_for_caret(graph: &mut DFAGraph) -> Result<(), CompilerError> {
-    if let Some(start_state) = graph.states.get_mut(0) {
-        start_state.state_type.clear();
-    } else {
-        return Err(CompilerError::GraphError(
-            "Start state not found".to_string(),
-        ));
-    }
-
-    let accepted_state = graph
-        .states
-        .iter()
-        .find(|state| state.state_type == "accept")
-        .ok_or_else(|| CompilerError::GraphError("Accept state not found".to_string()))?
-        .clone();
-
-    if let Some(start_state) = graph.states.get_mut(0) {
-        start_state
-            .transitions
-            .entry(accepted_state.state_id)
-            .or_insert_with(BTreeSet::new)
-            .insert(255u8);
-    }
-
-    Ok(())
-}
-
-/// Creates a simple DFA graph for the caret (^) anchor.
-///
-/// # Returns
-///
-/// A `DFAGraph` with two states:
-/// 1. Start state (id: 0) with a transition to the accept state on byte 255.
-/// 2. Accept state (id: 1) with no outgoing transitions.
-fn create_simple_caret_graph() -> DFAGraph {
-    DFAGraph {
-        states: vec![
-            DFAStateNode {
-                state_type: String::new(),
-                state_id: 0,
-                transitions: BTreeMap::from([(1, BTreeSet::from([255u8]))]),
-            },
-            DFAStateNode {
-                state_type: "accept".to_string(),
-                state_id: 1,
-                transitions: BTreeMap::new(),
-            },
-        ],
-    }
-}
-
-/// Handles the caret (^) anchor in a regex by modifying the DFA graph accordingly.
+/// Builds the DFA of a part.
 ///
 /// # Arguments
 ///
-/// * `idx` - The index of the current regex part.
-/// * `caret_position` - The position of the caret in the regex, if present.
-/// * `regex` - The current regex part configuration.
-/// * `graph` - The DFA graph to be modified.
+/// * `config` - The configuration of the DFA.
+/// * `regex` - The regex of the part.
+/// * `is_caret` - Whether the regex is what was split off because of its caret.
 ///
 /// # Returns
 ///
-/// A `Result` containing `()` if successful, or a `CompilerError` if modification fails.
-///
-/// # Function Behavior
-///
-/// - If it's the first regex part and a caret is present:
-///   - Creates a simple caret graph if the regex is just "^".
-///   - Otherwise, modifies the existing graph to handle the caret.
-fn handle_caret_regex(
-    idx: usize,
-    caret_position: Option<usize>,
-    regex: &RegexPartConfig,
-    graph: &mut DFAGraph,
-) -> Result<(), CompilerError> {
-    if idx == 0 && caret_position.is_some() {
-        if regex.regex_def == "^" {
-            *graph = create_simple_caret_graph();
-        } else {
-            modify_graph_for_caret(graph)?;
+/// A `Result` containing the DFA, or a `CompilerError` if it cannot be built. The caret becomes the
+/// byte 255, which stands for the start of the message and is in no other regex.
+fn build_part_dfa(
+    config: &Config,
+    regex: &str,
+    is_caret: bool,
+) -> Result<DFA<Vec<u32>>, CompilerError> {
+    let mut pattern = regex.to_string();
+    if is_caret {
+        if let Some(idx) = find_start_anchor(regex)? {
+            pattern.replace_range(idx..idx + 1, r"(?-u:\xFF)");
         }
     }
-    Ok(())
+
+    DFA::builder()
+        .configure(config.clone())
+        .syntax(syntax::Config::new().utf8(!is_caret))
+        .build(&format!(r"^({})$", pattern))
+        .map_err(|err| CompilerError::BuildError {
+            regex: regex.to_string(),
+            source: err,
+        })
 }
 
 /// Renames the states in a DFA graph, offsetting their IDs by a given base value.
@@ -881,7 +845,8 @@ fn collect_accepting_states(net_dfa: &DFAGraph) -> (Vec<&DFAStateNode>, BTreeSet
 ///
 /// # Returns
 ///
-/// A `BTreeSet` containing tuples of (from_state, to_state) representing all edges in the graph.
+/// A `BTreeSet` containing tuples of (from_state, to_state) representing all edges in the graph, except
+/// those that only the start of the message takes.
 fn collect_public_edges(graph: &DFAGraph) -> BTreeSet<(usize, usize)> {
     graph
         .states
@@ -889,8 +854,9 @@ fn collect_public_edges(graph: &DFAGraph) -> BTreeSet<(usize, usize)> {
         .flat_map(|state| {
             state
                 .transitions
-                .keys()
-                .map(move |&key| (state.state_id, key))
+                .iter()
+                .filter(|(_, chars)| chars.iter().any(|&char| char != 255))
+                .map(move |(&key, _)| (state.state_id, key))
         })
         .collect()
 }
@@ -1159,19 +1125,10 @@ pub(crate) fn get_regex_and_dfa(
 
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
-        validate_assertions(
-            &regex.regex_def,
-            i == 0 && caret_position.is_some(),
-            end_anchor,
-        )?;
-
-        let dfa = DFA::builder()
-            .configure(config.clone())
-            .build(&format!(r"^({})$", regex.regex_def.as_str()))
-            .map_err(|err| CompilerError::BuildError {
-                regex: regex.regex_def.clone(),
-                source: err,
-            })?;
+        let is_caret = i == 0 && caret_position.is_some();
+        validate_assertions(&regex.regex_def, is_caret, end_anchor)?;
+
+        let dfa = build_part_dfa(&config, &regex.regex_def, is_caret)?;
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
 
@@ -1182,12 +1139,10 @@ pub(crate) fn get_regex_and_dfa(
             )));
         }
 
-        if i == 0 && caret_position.is_some() && decomposed_regex.parts[1].is_public {
+        if is_caret && decomposed_regex.parts[1].is_public {
             public_caret_edges = collect_public_edges(&dfa_graph);
         }
 
-        handle_caret_regex(i, caret_position, regex, &mut dfa_graph)?;
-
         separate_start_state(&net_dfa_graph, &mut dfa_graph);
 
         let max_state_index = net_dfa_graph
-- 
2.43.0


From 07acb36ece56b872475eeb440739edd5ad3d8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 35/35] fix: compile a caret as part of its part, whose group
 could overlap with what follows

---
 packages/compiler/src/regex.rs | 122 ++++++++++++---------------------
 1 file changed, 45 insertions(+), 77 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 59d6ba7..e337e0f 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -160,41 +160,6 @@ fn has_top_level_alternation(regex: &str) -> bool {
     false
 }
 
-/// Processes the caret (^) in a regex, splitting it into two parts if necessary.
-///
-/// # Arguments
-///
-/// * `decomposed_regex` - A mutable reference to a `DecomposedRegexConfig`.
-///
-/// # Returns
-///
-/// A `Result` containing an `Option<usize>` with the caret position, or a `CompilerError`.
-fn process_caret_in_regex(
-    decomposed_regex: &mut DecomposedRegexConfig,
-) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
-
-    if let Some(index) = caret_position {
-        // What is before the alternation and what is after it cannot be split in the same place
-        if has_top_level_alternation(&decomposed_regex.parts[0].regex_def) {
-            return Err(CompilerError::GenericError(format!(
-                "Invalid regex, the alternation in `{}` must be in parentheses because of the caret",
-                decomposed_regex.parts[0].regex_def
-            )));
-        }
-
-        let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-        decomposed_regex.parts.push_front(RegexPartConfig {
-            is_public: false,
-            regex_def: caret_regex,
-        });
-        decomposed_regex.parts[1].regex_def =
-            decomposed_regex.parts[1].regex_def[index..].to_string();
-    }
-
-    Ok(caret_position)
-}
-
 /// Checks if a regex ends with an end anchor, that is with a dollar sign that is not escaped.
 ///
 /// # Arguments
@@ -225,11 +190,11 @@ fn has_assertions(regex: &str) -> bool {
     syntax::parse(regex).is_ok_and(|hir| !hir.properties().look_set().is_empty())
 }
 
-/// Finds the caret (^) that is a whole alternative of the leading group, or the whole regex.
+/// Finds the caret (^) that leads a regex or is a whole alternative of its leading group.
 ///
 /// # Arguments
 ///
-/// * `regex` - The regex that was split off from the first part because of its caret.
+/// * `regex` - The regex of the first part, without the end anchor.
 ///
 /// # Returns
 ///
@@ -237,6 +202,17 @@ fn has_assertions(regex: &str) -> bool {
 /// the only assertion in the regex.
 fn find_start_anchor(regex: &str) -> Result<Option<usize>, CompilerError> {
     let group_start = Regex::new(r"^(\((\?([a-zA-Z-]*:|P?<[^>]*>))?|$)")?;
+    // What follows the caret or its group
+    let rest = find_caret_index(regex).map_or("", |idx| &regex[idx..]);
+    let is_line_start = syntax::parse(regex)
+        .is_ok_and(|hir| hir.properties().look_set().contains_anchor_line());
+    if is_line_start
+        || has_top_level_alternation(regex)
+        || rest.starts_with(['*', '+', '?', '{'])
+    {
+        return Ok(None);
+    }
+
     let start_anchor = regex.match_indices('^').find(|&(idx, _)| {
         let (before, after) = (&regex[..idx], &regex[idx + 1..]);
         // The alternatives in the leading group that are before the caret
@@ -250,7 +226,7 @@ fn find_start_anchor(regex: &str) -> Result<Option<usize>, CompilerError> {
                         .strip_suffix('|')
                         .is_some_and(|rest| syntax::parse(rest).is_ok())
             })
-            && (after.is_empty() || after.starts_with('|') || after == ")")
+            && (before.is_empty() || after.starts_with(['|', ')']))
     });
     Ok(start_anchor.map(|(idx, _)| idx))
 }
@@ -258,23 +234,23 @@ fn find_start_anchor(regex: &str) -> Result<Option<usize>, CompilerError> {
 /// Checks that a regex has no anchors or other assertions where its automaton would ignore them.
 ///
 /// A part is compiled on its own, so an assertion in it would look at the part, not at the message.
-/// Supported are a caret that is a whole alternative of the leading group (or leads the regex), which
-/// has been split off from the first part, and a dollar sign at the very end of the last part.
+/// Supported are a caret that leads the first part or is a whole alternative of its leading group, and
+/// a dollar sign at the very end of the last part.
 ///
 /// # Arguments
 ///
 /// * `regex` - The regex of a part.
-/// * `is_caret` - Whether the regex is what was split off because of its caret.
+/// * `is_first_part` - Whether the part is the first one.
 /// * `is_end_anchor` - Whether the regex ends with the end anchor.
 ///
 /// # Returns
 ///
-/// A `Result` indicating success or a `CompilerError`.
+/// A `Result` containing the index of the caret, or a `CompilerError`.
 fn validate_assertions(
     regex: &str,
-    is_caret: bool,
+    is_first_part: bool,
     is_end_anchor: bool,
-) -> Result<(), CompilerError> {
+) -> Result<Option<usize>, CompilerError> {
     if is_end_anchor && has_top_level_alternation(regex) {
         return Err(CompilerError::GenericError(format!(
             "Invalid regex, the alternation in `{}` must be in parentheses because of the $",
@@ -282,21 +258,27 @@ fn validate_assertions(
         )));
     }
 
-    let is_supported = if is_caret {
-        find_start_anchor(regex)?.is_some()
-    } else if is_end_anchor {
-        !has_assertions(&regex[..regex.len() - 1])
+    let body = if is_end_anchor {
+        &regex[..regex.len() - 1]
     } else {
-        !has_assertions(regex)
+        regex
     };
+    if !has_assertions(body) {
+        return Ok(None);
+    }
 
-    if !is_supported {
+    let caret_position = if is_first_part {
+        find_start_anchor(body)?
+    } else {
+        None
+    };
+    if caret_position.is_none() {
         return Err(CompilerError::GenericError(format!(
             "Invalid regex, `{}` has an anchor or another assertion that is neither at the start nor at the end of the whole regex",
             regex
         )));
     }
-    Ok(())
+    Ok(caret_position)
 }
 
 /// Validates the end anchor ($) in a regex part.
@@ -737,7 +719,7 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 ///
 /// * `config` - The configuration of the DFA.
 /// * `regex` - The regex of the part.
-/// * `is_caret` - Whether the regex is what was split off because of its caret.
+/// * `caret_position` - The index of the caret in the regex, if it has one.
 ///
 /// # Returns
 ///
@@ -746,18 +728,16 @@ fn convert_dfa_to_graph(dfa: DFA<Vec<u32>>) -> Result<DFAGraph, CompilerError> {
 fn build_part_dfa(
     config: &Config,
     regex: &str,
-    is_caret: bool,
+    caret_position: Option<usize>,
 ) -> Result<DFA<Vec<u32>>, CompilerError> {
     let mut pattern = regex.to_string();
-    if is_caret {
-        if let Some(idx) = find_start_anchor(regex)? {
-            pattern.replace_range(idx..idx + 1, r"(?-u:\xFF)");
-        }
+    if let Some(idx) = caret_position {
+        pattern.replace_range(idx..idx + 1, r"(?-u:\xFF)");
     }
 
     DFA::builder()
         .configure(config.clone())
-        .syntax(syntax::Config::new().utf8(!is_caret))
+        .syntax(syntax::Config::new().utf8(caret_position.is_none()))
         .build(&format!(r"^({})$", pattern))
         .map_err(|err| CompilerError::BuildError {
             regex: regex.to_string(),
@@ -956,8 +936,10 @@ fn process_public_regex(
 
     let (accepting_states, mut substring_starts) = collect_accepting_states(net_dfa);
     if net_dfa.states.is_empty() {
-        // The first part starts in the start state
-        substring_starts.insert(0);
+        // The first part starts in the start state, and in those that the start of the message leads to
+        for (to, chars) in &graph.states[0].transitions {
+            substring_starts.extend(chars.iter().map(|&char| if char == 255 { *to } else { 0 }));
+        }
     }
     let mut public_edges = collect_public_edges(graph);
     let substring_ends = collect_substr_ends(graph);
@@ -1116,19 +1098,13 @@ pub(crate) fn get_regex_and_dfa(
 
     let config = create_dfa_config();
 
-    let caret_position = process_caret_in_regex(decomposed_regex)?;
-
     let mut end_anchor = false;
 
-    // The transitions of a caret group that was split off from a public part, which are public too
-    let mut public_caret_edges = BTreeSet::new();
-
     for (i, regex) in decomposed_regex.parts.iter().enumerate() {
         end_anchor = validate_end_anchor(decomposed_regex, i, regex)?;
-        let is_caret = i == 0 && caret_position.is_some();
-        validate_assertions(&regex.regex_def, is_caret, end_anchor)?;
+        let caret_position = validate_assertions(&regex.regex_def, i == 0, end_anchor)?;
 
-        let dfa = build_part_dfa(&config, &regex.regex_def, is_caret)?;
+        let dfa = build_part_dfa(&config, &regex.regex_def, caret_position)?;
 
         let mut dfa_graph = convert_dfa_to_graph(dfa)?;
 
@@ -1139,10 +1115,6 @@ pub(crate) fn get_regex_and_dfa(
             )));
         }
 
-        if is_caret && decomposed_regex.parts[1].is_public {
-            public_caret_edges = collect_public_edges(&dfa_graph);
-        }
-
         separate_start_state(&net_dfa_graph, &mut dfa_graph);
 
         let max_state_index = net_dfa_graph
@@ -1155,12 +1127,8 @@ pub(crate) fn get_regex_and_dfa(
         dfa_graph = rename_states(&dfa_graph, max_state_index);
 
         if regex.is_public {
-            let (mut public_edges, (mut substr_starts, substr_ends)) =
+            let (public_edges, (substr_starts, substr_ends)) =
                 process_public_regex(regex, &net_dfa_graph, &dfa_graph, max_state_index);
-            if i == 1 && !public_caret_edges.is_empty() {
-                public_edges.append(&mut public_caret_edges);
-                substr_starts.insert(0);
-            }
             substring_ranges_array.push(public_edges);
             substring_boundaries_array.push((substr_starts, substr_ends));
         }
-- 
2.43.0

