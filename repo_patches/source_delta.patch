From 103d7f1e73650035f0cd5f9ff904953a52a8ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 01/20] fix: let -h mean --halo2-dir-path only (it collided
 with clap's help flag and panicked)

---
 packages/compiler/src/bin/compiler.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/bin/compiler.rs b/packages/compiler/src/bin/compiler.rs
index ba53749..526a275 100644
--- a/packages/compiler/src/bin/compiler.rs
+++ b/packages/compiler/src/bin/compiler.rs
@@ -45,7 +45,7 @@
 //! zk-regex raw -r "a*b+c?" -s substrings.json -h ./halo2_output -c ./circom_output.circom -t MyTemplate -g true
 //! ```
 
-use clap::{Parser, Subcommand};
+use clap::{ArgAction, Parser, Subcommand};
 use zk_regex_compiler::{gen_from_decomposed, gen_from_raw};
 
 #[derive(Parser, Debug, Clone)]
@@ -57,7 +57,12 @@ struct Cli {
 
 #[derive(Debug, Subcommand, Clone)]
 enum Commands {
+    // `-h` is the short form of `--halo2-dir-path`, so help is only available as `--help`.
+    #[command(disable_help_flag = true)]
     Decomposed {
+        /// Print help
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
         #[arg(short, long)]
         decomposed_regex_path: String,
         #[arg(short, long)]
@@ -69,7 +74,11 @@ enum Commands {
         #[arg(short, long)]
         gen_substrs: Option<bool>,
     },
+    #[command(disable_help_flag = true)]
     Raw {
+        /// Print help
+        #[arg(long, action = ArgAction::Help)]
+        help: Option<bool>,
         #[arg(short, long)]
         raw_regex: String,
         #[arg(short, long)]
@@ -100,6 +109,7 @@ fn process_decomposed(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_decomposed(
@@ -123,6 +133,7 @@ fn process_raw(cli: Cli) {
         circom_file_path,
         template_name,
         gen_substrs,
+        ..
     } = cli.command
     {
         if let Err(e) = gen_from_raw(
-- 
2.43.0


From 017a9fa1ff484e6dac4fa9c9e197d4134966fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 02/20] fix: close the circom template when substrings are not
 generated

---
 packages/compiler/src/circom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f7d319f..b7c09ad 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -980,6 +980,9 @@ pub(crate) fn gen_circom_template(
     if gen_substrs {
         let substrs = add_substrs_constraints(regex_and_dfa)?;
         file.write_all(substrs.as_bytes())?;
+    } else {
+        // add_substrs_constraints closes the template; without it, close it here
+        file.write_all(b"\n}")?;
     }
 
     file.flush()?;
-- 
2.43.0


From 742f44305347bc377cd7b48b6c3069022fa1115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 03/20] fix: constrain the second AND input of a transition
 that no byte can take

---
 packages/compiler/src/circom.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index b7c09ad..4346b28 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -231,7 +231,10 @@ fn add_state_transition(
         and_i, prev_i
     ));
 
-    if eq_outputs.len() == 1 {
+    if eq_outputs.is_empty() {
+        // no byte can take this transition
+        lines.push(format!("\t\tand[{}][i].b <== 0;", and_i));
+    } else if eq_outputs.len() == 1 {
         lines.push(format!(
             "\t\tand[{}][i].b <== {}[{}][i].out;",
             and_i, eq_outputs[0].0, eq_outputs[0].1
-- 
2.43.0


From edb5db0a07957e3c43651f8e61081f2d1a6ad981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 04/20] fix: anchor a raw regex as a whole (a top-level
 alternation was anchored on one side only)

---
 packages/compiler/src/regex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index d3571b4..9f08e41 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1014,7 +1014,7 @@ fn create_dfa_graph_from_regex(regex: &str) -> Result<DFAGraph, CompilerError> {
 
     let dfa = DFA::builder()
         .configure(config)
-        .build(&format!(r"^{}$", regex))
+        .build(&format!(r"^({})$", regex))
         .map_err(|e| CompilerError::BuildError {
             regex: regex.to_string(),
             source: e,
-- 
2.43.0


From 33ae487695a4ef8828638b9315114509a134a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 05/20] fix: do not take an escaped dollar sign for the end
 anchor

---
 packages/compiler/src/regex.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 9f08e41..e8265dd 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -111,6 +111,14 @@ fn process_caret_in_regex(
     Ok(caret_position)
 }
 
+/// Checks whether a regex ends with an end anchor, i.e. with an unescaped `$`.
+fn ends_with_end_anchor(regex: &str) -> bool {
+    match regex.strip_suffix('$') {
+        Some(rest) => rest.bytes().rev().take_while(|&b| b == b'\\').count() % 2 == 0,
+        None => false,
+    }
+}
+
 /// Validates the end anchor ($) in a regex part.
 ///
 /// # Arguments
@@ -128,7 +136,7 @@ fn validate_end_anchor(
     regex: &RegexPartConfig,
 ) -> Result<bool, CompilerError> {
     let is_last_part = idx == decomposed_regex.parts.len() - 1;
-    let ends_with_dollar = regex.regex_def.ends_with('$');
+    let ends_with_dollar = ends_with_end_anchor(&regex.regex_def);
 
     if ends_with_dollar && !is_last_part {
         return Err(CompilerError::GenericError(
@@ -1095,7 +1103,7 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
     Ok(RegexAndDFA {
         regex_pattern: regex_str.to_string(),
         dfa,
-        has_end_anchor: regex_str.ends_with('$'),
+        has_end_anchor: ends_with_end_anchor(regex_str),
         substrings,
     })
 }
-- 
2.43.0


From 18f0c39ce1d7fcf1b2c5eb02274bcc65957b760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 06/20] fix: reject a decomposed regex without parts instead of
 panicking

---
 packages/compiler/src/regex.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index e8265dd..5fa2fe3 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -96,7 +96,10 @@ fn find_caret_index(regex: &str) -> Option<usize> {
 fn process_caret_in_regex(
     decomposed_regex: &mut DecomposedRegexConfig,
 ) -> Result<Option<usize>, CompilerError> {
-    let caret_position = find_caret_index(&decomposed_regex.parts[0].regex_def);
+    let first_part = decomposed_regex.parts.front().ok_or_else(|| {
+        CompilerError::GenericError("Invalid regex, at least one part is required".to_string())
+    })?;
+    let caret_position = find_caret_index(&first_part.regex_def);
 
     if let Some(index) = caret_position {
         let caret_regex = decomposed_regex.parts[0].regex_def[0..index].to_string();
-- 
2.43.0


From a73fe2656ac0c1f2c92cc9d50ac26cf1339edd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 07/20] fix: find the caret outside character classes and
 across nested groups

---
 packages/compiler/src/regex.rs | 35 ++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 5fa2fe3..cd15653 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -40,7 +40,8 @@ fn create_dfa_config() -> Config {
 /// An `Option<usize>` containing the index of the caret if found, or `None` if not found.
 fn find_caret_index(regex: &str) -> Option<usize> {
     let regex_bytes = regex.as_bytes();
-    let mut is_in_parenthesis = false;
+    let mut parenthesis_depth = 0usize;
+    let mut class_depth = 0usize;
     let mut caret_found = false;
     let mut idx = 0;
 
@@ -49,25 +50,39 @@ fn find_caret_index(regex: &str) -> Option<usize> {
             b'\\' => {
                 idx += 2;
             }
-            b'(' => {
-                is_in_parenthesis = true;
+            b'[' => {
+                class_depth += 1;
                 idx += 1;
+                // A negation, and a `]` right after the opening, belong to the class
+                if regex_bytes.get(idx) == Some(&b'^') {
+                    idx += 1;
+                }
+                if regex_bytes.get(idx) == Some(&b']') {
+                    idx += 1;
+                }
             }
-            b'[' => {
-                idx += 2;
+            b']' if class_depth > 0 => {
+                class_depth -= 1;
+                idx += 1;
+            }
+            _ if class_depth > 0 => {
+                idx += 1;
+            }
+            b'(' => {
+                parenthesis_depth += 1;
+                idx += 1;
             }
             b')' => {
-                debug_assert!(is_in_parenthesis, "Unmatched parenthesis");
-                is_in_parenthesis = false;
+                parenthesis_depth = parenthesis_depth.saturating_sub(1);
                 idx += 1;
-                if caret_found {
+                if caret_found && parenthesis_depth == 0 {
                     break;
                 }
             }
             b'^' => {
                 caret_found = true;
                 idx += 1;
-                if !is_in_parenthesis {
+                if parenthesis_depth == 0 {
                     break;
                 }
             }
@@ -78,7 +93,7 @@ fn find_caret_index(regex: &str) -> Option<usize> {
     }
 
     if caret_found {
-        Some(idx)
+        Some(idx.min(regex_bytes.len()))
     } else {
         None
     }
-- 
2.43.0


From e0b22dff676bf3557f6a9e5d23706ce08287b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 08/20] fix: report an error instead of panicking when halo2
 tables cannot be generated

---
 packages/compiler/src/halo2.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index d8e2048..77ab8bf 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -17,9 +17,10 @@ use std::{
 ///
 /// # Returns
 ///
-/// A String containing the text representation of the DFA.
-fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
-    let accepted_state = get_accepted_state(&regex_and_dfa.dfa).unwrap();
+/// A Result containing the text representation of the DFA, or a CompilerError.
+fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> Result<String, CompilerError> {
+    let accepted_state =
+        get_accepted_state(&regex_and_dfa.dfa).ok_or(CompilerError::NoAcceptedState)?;
     let max_state = get_max_state(&regex_and_dfa.dfa);
     let mut text = format!("0\n{}\n{}\n", accepted_state, max_state);
 
@@ -30,7 +31,7 @@ fn dfa_to_regex_def_text(regex_and_dfa: &RegexAndDFA) -> String {
             }
         }
     }
-    text
+    Ok(text)
 }
 
 /// Generates Halo2 tables from a RegexAndDFA structure.
@@ -51,20 +52,26 @@ pub(crate) fn gen_halo2_tables(
     substr_file_paths: &[PathBuf],
     gen_substrs: bool,
 ) -> Result<(), CompilerError> {
-    let regex_text = dfa_to_regex_def_text(regex_and_dfa);
+    let regex_text = dfa_to_regex_def_text(regex_and_dfa)?;
     std::fs::write(allstr_file_path, regex_text)?;
 
     if !gen_substrs {
         return Ok(());
     }
 
+    let substring_boundaries = regex_and_dfa
+        .substrings
+        .substring_boundaries
+        .as_ref()
+        .ok_or_else(|| {
+            CompilerError::GenericError(
+                "Halo2 substring tables are only supported for a decomposed regex".to_string(),
+            )
+        })?;
+
     for (idx, defs) in regex_and_dfa.substrings.substring_ranges.iter().enumerate() {
         let mut writer = BufWriter::new(File::create(&substr_file_paths[idx])?);
-        let (starts, ends) = &regex_and_dfa
-            .substrings
-            .substring_boundaries
-            .as_ref()
-            .unwrap()[idx];
+        let (starts, ends) = &substring_boundaries[idx];
 
         writeln!(
             writer,
-- 
2.43.0


From 1984d48a7c11c9741d358910ec00b4bdb2cc04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 09/20] fix: report a missing circom template name as an error

---
 packages/compiler/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/compiler/src/lib.rs b/packages/compiler/src/lib.rs
index 2767c52..8076180 100644
--- a/packages/compiler/src/lib.rs
+++ b/packages/compiler/src/lib.rs
@@ -77,8 +77,12 @@ fn generate_outputs(
 
     if let Some(circom_file_path) = circom_file_path {
         let circom_file_path = PathBuf::from(circom_file_path);
-        let circom_template_name = circom_template_name
-            .expect("circom template name must be specified if circom file path is specified");
+        let circom_template_name = circom_template_name.ok_or_else(|| {
+            CompilerError::GenericError(
+                "circom template name must be specified if circom file path is specified"
+                    .to_string(),
+            )
+        })?;
 
         gen_circom_template(
             regex_and_dfa,
-- 
2.43.0


From 65b8a7400b8db896e8a3b0910bfbdad7f2b3d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 10/20] fix: throw errors from the wasm entry points instead of
 trapping

---
 packages/compiler/src/wasm.rs | 57 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/packages/compiler/src/wasm.rs b/packages/compiler/src/wasm.rs
index 97ed29f..f78f825 100644
--- a/packages/compiler/src/wasm.rs
+++ b/packages/compiler/src/wasm.rs
@@ -30,32 +30,51 @@ pub fn genFromDecomposed(
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genFromRaw(rawRegex: &str, substrsJson: &str, circomTemplateName: &str) -> String {
-    let substrs_defs_json: SubstringDefinitionsJson =
-        serde_json::from_str(substrsJson).expect("failed to parse substrs json");
+pub fn genFromRaw(
+    rawRegex: &str,
+    substrsJson: &str,
+    circomTemplateName: &str,
+) -> Result<String, JsValue> {
+    let substrs_defs_json: SubstringDefinitionsJson = serde_json::from_str(substrsJson)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse substrs json: {}", e)))?;
     let regex_and_dfa = create_regex_and_dfa_from_str_and_defs(rawRegex, substrs_defs_json)
-        .expect("failed to convert the raw regex and state transitions to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+        .map_err(|e| {
+            JsValue::from_str(&format!(
+                "failed to convert the raw regex and state transitions to dfa: {}",
+                e
+            ))
+        })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genRegexAndDfa(decomposedRegex: JsValue) -> JsValue {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    let dfa_val_str =
-        serde_json::to_string(&regex_and_dfa).expect("failed to convert the dfa to json");
-    JsValue::from_str(&dfa_val_str)
+pub fn genRegexAndDfa(decomposedRegex: JsValue) -> Result<JsValue, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    let dfa_val_str = serde_json::to_string(&regex_and_dfa)
+        .map_err(|e| JsValue::from_str(&format!("failed to convert the dfa to json: {}", e)))?;
+    Ok(JsValue::from_str(&dfa_val_str))
 }
 
 #[wasm_bindgen]
 #[allow(non_snake_case)]
-pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> String {
-    let mut decomposed_regex_config: DecomposedRegexConfig =
-        from_value(decomposedRegex).expect("failed to parse decomposed regex");
-    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config)
-        .expect("failed to convert the decomposed regex to dfa");
-    gen_circom_string(&regex_and_dfa, circomTemplateName).expect("failed to generate circom")
+pub fn genCircom(decomposedRegex: JsValue, circomTemplateName: &str) -> Result<String, JsValue> {
+    let mut decomposed_regex_config: DecomposedRegexConfig = from_value(decomposedRegex)
+        .map_err(|e| JsValue::from_str(&format!("failed to parse decomposed regex: {}", e)))?;
+    let regex_and_dfa = get_regex_and_dfa(&mut decomposed_regex_config).map_err(|e| {
+        JsValue::from_str(&format!(
+            "failed to convert the decomposed regex to dfa: {}",
+            e
+        ))
+    })?;
+    gen_circom_string(&regex_and_dfa, circomTemplateName)
+        .map_err(|e| JsValue::from_str(&format!("failed to generate circom: {}", e)))
 }
-- 
2.43.0


From 3c5b5794a68077a6326d660b33bb48c82b9de899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 11/20] fix: keep regex parts unmodified when extracting
 substrings (escaped and special groups were corrupted)

---
 packages/apis/src/extract_substrs.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/packages/apis/src/extract_substrs.rs b/packages/apis/src/extract_substrs.rs
index f975e5e..c7e9bc2 100644
--- a/packages/apis/src/extract_substrs.rs
+++ b/packages/apis/src/extract_substrs.rs
@@ -44,24 +44,29 @@ pub fn extract_substr_idxes(
     reveal_private: bool,
 ) -> Result<Vec<(usize, usize)>, ExtractSubstrssError> {
     // Validate each regex part individually, to throw better errors
+    let mut part_group_idxes = Vec::with_capacity(regex_config.parts.len());
+    let mut next_group_idx = 1; // Capture group indices are 1-based
     for (i, part) in regex_config.parts.iter().enumerate() {
-        Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
-            part_index: i,
-            regex_def: part.regex_def.clone(),
-            error: e,
-        })?;
+        let part_regex =
+            Regex::new(&part.regex_def).map_err(|e| ExtractSubstrssError::InvalidRegexPart {
+                part_index: i,
+                regex_def: part.regex_def.clone(),
+                error: e,
+            })?;
+        // The group wrapping the part comes before the groups inside the part
+        part_group_idxes.push(next_group_idx);
+        next_group_idx += part_regex.captures_len();
     }
 
     // Construct the full regex pattern with groups for each part
     let mut entire_regex_str = String::new();
     for (_, part) in regex_config.parts.iter().enumerate() {
-        let adjusted_regex_def = part.regex_def.replace("(", "(?:");
-        entire_regex_str += &format!("({})", adjusted_regex_def);
+        entire_regex_str += &format!("({})", part.regex_def);
     }
 
     // Compile the entire regex
-    // This should be impossible to fail, since we tested the seperate regex parts before.
-    let entire_regex = Regex::new(&entire_regex_str).unwrap();
+    // This can still fail although the separate parts compile, e.g. on its size or a duplicate group name.
+    let entire_regex = Regex::new(&entire_regex_str)?;
 
     // Find the match for the entire regex
     let entire_captures = entire_regex
@@ -74,8 +79,7 @@ pub fn extract_substr_idxes(
     // Iterate over each part to extract the relevant indices
     for (i, part) in regex_config.parts.iter().enumerate() {
         if part.is_public || reveal_private {
-            if let Some(matched) = entire_captures.get(i + 1) {
-                // Capture group indices are 1-based
+            if let Some(matched) = entire_captures.get(part_group_idxes[i]) {
                 public_idxes.push((matched.start(), matched.end()));
             }
         }
-- 
2.43.0


From a84be11b138786415b67b83cbb57b018447427f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 12/20] fix: constrain a state entered from the start state
 only on byte 0

---
 packages/compiler/src/circom.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index 4346b28..c9267f2 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -234,6 +234,9 @@ fn add_state_transition(
     if eq_outputs.is_empty() {
         // no byte can take this transition
         lines.push(format!("\t\tand[{}][i].b <== 0;", and_i));
+        if prev_i == 0 {
+            zero_starting_and_idxes.get_mut(&i).unwrap().push(*and_i);
+        }
     } else if eq_outputs.len() == 1 {
         lines.push(format!(
             "\t\tand[{}][i].b <== {}[{}][i].out;",
-- 
2.43.0


From ce706a2729adf4f0b3be3f4634a631d5ed9ba377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 13/20] fix: constrain the start state after the last byte (it
 was left to the prover when a revealed transition enters it)

---
 packages/compiler/src/circom.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index c9267f2..aaf31f0 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -620,6 +620,7 @@ fn generate_declarations(
         format!("\tsignal states[num_bytes+1][{state_len}];"),
         format!("\tsignal states_tmp[num_bytes+1][{state_len}];"),
         "\tsignal from_zero_enabled[num_bytes+1];".to_string(),
+        "\tstates[num_bytes][0] <== 1;".to_string(),
         "\tfrom_zero_enabled[num_bytes] <== 0;".to_string(),
         "\tcomponent state_changed[num_bytes];".to_string(),
         "".to_string(),
-- 
2.43.0


From 6e26ae7465a411d00720cb78b068286feb318c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:42 +0000
Subject: [PATCH 14/20] fix: keep the extracted from/to address on its own
 header line

---
 packages/apis/src/decomposed_defs/from_addr.json | 2 +-
 packages/apis/src/decomposed_defs/to_addr.json   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apis/src/decomposed_defs/from_addr.json b/packages/apis/src/decomposed_defs/from_addr.json
index 6753257..385bc50 100644
--- a/packages/apis/src/decomposed_defs/from_addr.json
+++ b/packages/apis/src/decomposed_defs/from_addr.json
@@ -10,7 +10,7 @@
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
diff --git a/packages/apis/src/decomposed_defs/to_addr.json b/packages/apis/src/decomposed_defs/to_addr.json
index 394a26b..f252d6c 100644
--- a/packages/apis/src/decomposed_defs/to_addr.json
+++ b/packages/apis/src/decomposed_defs/to_addr.json
@@ -10,7 +10,7 @@
     },
     {
       "is_public": true,
-      "regex_def": "[^<>]+"
+      "regex_def": "[^<>\r\n]+"
     },
     {
       "is_public": false,
-- 
2.43.0


From 83a897fec794ab7f07908b7a0cf1eff689fd01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 15/20] fix: keep loops back to a part's start state apart from
 the preceding parts

The start state of a part takes the number of the last state so far. A transition
back to it then led into that state, which need not be the state the part starts
from, so merged automata accepted texts outside of the regex and lost transitions.
---
 packages/compiler/src/regex.rs | 45 ++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index cd15653..6135e67 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -716,6 +716,49 @@ fn rename_states(dfa_graph: &DFAGraph, base: usize) -> DFAGraph {
     }
 }
 
+/// Separates the start state of a DFA graph from the transitions that lead back to it.
+///
+/// When a graph is merged, its start state takes the ID of the last state of the net DFA. This is
+/// only right for transitions back to the start state if that last state is an accepting state
+/// without transitions of its own. Otherwise they are redirected to a copy of the start state.
+///
+/// # Arguments
+///
+/// * `net_dfa` - A reference to the cumulative DFAGraph built so far.
+/// * `graph` - A mutable reference to the DFAGraph to be merged.
+/// * `max_state_index` - The maximum state ID of the net DFA.
+fn separate_start_state(net_dfa: &DFAGraph, graph: &mut DFAGraph, max_state_index: usize) {
+    let shareable = net_dfa
+        .states
+        .iter()
+        .filter(|state| state.state_id == max_state_index)
+        .all(|state| {
+            state.state_type == "accept" && state.transitions.values().all(|bytes| bytes.is_empty())
+        });
+    if shareable {
+        return;
+    }
+
+    let looped = graph
+        .states
+        .iter()
+        .any(|state| state.transitions.contains_key(&0));
+    if !looped {
+        return;
+    }
+
+    let copy_id = graph.states.len();
+    let mut start_copy = graph.states[0].clone();
+    start_copy.state_id = copy_id;
+    graph.states.push(start_copy);
+
+    for state in &mut graph.states {
+        if let Some(bytes) = state.transitions.remove(&0) {
+            state.transitions.insert(copy_id, bytes);
+        }
+    }
+}
+
 /// Collects accepting states from a DFA graph and their state IDs.
 ///
 /// # Arguments
@@ -993,6 +1036,8 @@ pub(crate) fn get_regex_and_dfa(
             .max()
             .unwrap_or(0);
 
+        separate_start_state(&net_dfa_graph, &mut dfa_graph, max_state_index);
+
         dfa_graph = rename_states(&dfa_graph, max_state_index);
 
         if regex.is_public {
-- 
2.43.0


From 85fc89fe3261a26fea35c03ebf3a0d2a7b9f1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 16/20] fix: emit valid circom for a substring without
 transitions

Without a definition file the raw command defines one substring without any
transition; the generated circuit contained an empty array literal.
---
 packages/compiler/src/circom.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index aaf31f0..f48c292 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -839,6 +839,11 @@ fn write_prev_states(idx: usize, ranges: &[&(usize, usize)]) -> String {
 ///
 /// A String containing the generated Circom code for substring logic.
 fn write_is_substr(idx: usize, ranges: &[&(usize, usize)]) -> String {
+    if ranges.is_empty() {
+        // nothing is revealed; circom has no empty array literals
+        return format!("\t\tis_substr{idx}[i] <== 0;\n");
+    }
+
     let multi_or_inputs = ranges
         .iter()
         .enumerate()
@@ -888,7 +893,9 @@ fn write_is_reveal_and_reveal(idx: usize) -> String {
 /// A String containing the generated Circom code for the complete substring logic.
 fn write_substr_logic(idx: usize, ranges: &[(usize, usize)]) -> String {
     let mut logic = String::new();
-    logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
+    if !ranges.is_empty() {
+        logic += &format!("\tsignal prev_states{idx}[{}][msg_bytes];\n", ranges.len());
+    }
     logic += &format!("\tsignal is_substr{idx}[msg_bytes];\n");
     logic += &format!("\tsignal is_reveal{idx}[msg_bytes];\n");
     logic += &format!("\tsignal output reveal{idx}[msg_bytes];\n");
-- 
2.43.0


From 520fc181064f3a8059b3a94de09171802a740354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:54 +0000
Subject: [PATCH 17/20] fix: report automata without any state besides the
 initial one

The generated circuit had gates without inputs and empty array literals.
---
 packages/compiler/src/circom.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/compiler/src/circom.rs b/packages/compiler/src/circom.rs
index f48c292..773639e 100644
--- a/packages/compiler/src/circom.rs
+++ b/packages/compiler/src/circom.rs
@@ -744,6 +744,12 @@ fn gen_circom_allstr(
 ) -> Result<String, CompilerError> {
     let state_len = dfa_graph.states.len();
 
+    if state_len < 2 {
+        return Err(CompilerError::GraphError(
+            "The regex must have a transition to a state other than the initial one".to_string(),
+        ));
+    }
+
     let (rev_graph, accept_nodes) = build_reverse_graph(state_len, dfa_graph)?;
 
     let (eq_i, lt_i, and_i, multi_or_i, lines) =
-- 
2.43.0


From a23f1ec580e2a0c006e6bcc59c3a4353f53169bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 18/20] fix: report substring definitions that refer to states
 that do not exist

They were accepted and the generated circuit read signals outside of the state array.
---
 packages/compiler/src/regex.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index 6135e67..b800792 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -1148,6 +1148,16 @@ pub(crate) fn create_regex_and_dfa_from_str_and_defs(
 ) -> Result<RegexAndDFA, CompilerError> {
     let dfa = create_dfa_graph_from_regex(regex_str)?;
 
+    let state_len = dfa.states.len();
+    for &(from, to) in substrs_defs_json.transitions.iter().flatten() {
+        if from >= state_len || to >= state_len {
+            return Err(CompilerError::GraphError(format!(
+                "The substring transition {} -> {} refers to a state that does not exist",
+                from, to
+            )));
+        }
+    }
+
     let substring_ranges = substrs_defs_json
         .transitions
         .into_iter()
-- 
2.43.0


From 25a90dcb043e703bdf23fd0c8aa80a6935015d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 19/20] fix: report an error of the last write of a halo2
 substring table

Dropping the buffered writer discards the error of its final flush.
---
 packages/compiler/src/halo2.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/compiler/src/halo2.rs b/packages/compiler/src/halo2.rs
index 77ab8bf..150d82b 100644
--- a/packages/compiler/src/halo2.rs
+++ b/packages/compiler/src/halo2.rs
@@ -97,6 +97,7 @@ pub(crate) fn gen_halo2_tables(
         for &(cur, next) in &sorted_defs {
             writeln!(writer, "{} {}", cur, next)?;
         }
+        writer.flush()?;
     }
 
     Ok(())
-- 
2.43.0


From 4e5642651014a240871e9fc01a23b92a9bd04fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 20/20] fix: share the boundary state of a looping part only if
 it is the sole accepting state

Merging the start transitions into another accepting state replaced the transitions
of that state which lead to the boundary state.
---
 packages/compiler/src/regex.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/packages/compiler/src/regex.rs b/packages/compiler/src/regex.rs
index b800792..9d009d1 100644
--- a/packages/compiler/src/regex.rs
+++ b/packages/compiler/src/regex.rs
@@ -719,8 +719,9 @@ fn rename_states(dfa_graph: &DFAGraph, base: usize) -> DFAGraph {
 /// Separates the start state of a DFA graph from the transitions that lead back to it.
 ///
 /// When a graph is merged, its start state takes the ID of the last state of the net DFA. This is
-/// only right for transitions back to the start state if that last state is an accepting state
-/// without transitions of its own. Otherwise they are redirected to a copy of the start state.
+/// only right for transitions back to the start state if that last state is the only accepting
+/// state and has no transitions of its own. Otherwise they are redirected to a copy of the start
+/// state.
 ///
 /// # Arguments
 ///
@@ -728,13 +729,14 @@ fn rename_states(dfa_graph: &DFAGraph, base: usize) -> DFAGraph {
 /// * `graph` - A mutable reference to the DFAGraph to be merged.
 /// * `max_state_index` - The maximum state ID of the net DFA.
 fn separate_start_state(net_dfa: &DFAGraph, graph: &mut DFAGraph, max_state_index: usize) {
-    let shareable = net_dfa
-        .states
-        .iter()
-        .filter(|state| state.state_id == max_state_index)
-        .all(|state| {
-            state.state_type == "accept" && state.transitions.values().all(|bytes| bytes.is_empty())
-        });
+    let shareable = net_dfa.states.iter().all(|state| {
+        if state.state_type == "accept" {
+            state.state_id == max_state_index
+                && state.transitions.values().all(|bytes| bytes.is_empty())
+        } else {
+            state.state_id != max_state_index
+        }
+    });
     if shareable {
         return;
     }
-- 
2.43.0

