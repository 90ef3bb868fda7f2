From 1d023f8266fbbf7721b448f97fdb8839bead6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 01/31] fix: parse opened documents from scratch instead of
 reusing an unedited tree

---
 jinja-lsp/src/lsp_files.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..6e37a05 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -128,20 +128,9 @@ impl LspFiles {
         file_content: &str,
     ) -> Option<()> {
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        // the edits leading to this content are unknown, old tree can't be reused
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From 9a96d583e172f17d2331ffd5b2dc67646e93770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 02/31] fix: apply every content change at the position the
 client meant

---
 jinja-lsp-queries/src/to_input_edit.rs | 33 ++++++++++++++++++++++----
 jinja-lsp/src/lsp_files.rs             | 25 +++++++++++--------
 2 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..a39901e 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -6,6 +6,7 @@ use tree_sitter::{InputEdit, Point};
 
 pub trait ToInputEdit {
     fn to_point(&self, position: Position) -> Point;
+    fn to_char(&self, position: Position) -> usize;
     fn to_byte(&self, position: Position) -> usize;
     fn to_position(&self, offset: usize) -> Position;
     fn to_input_edit(&self, range: Range, text: &str) -> InputEdit;
@@ -13,12 +14,29 @@ pub trait ToInputEdit {
 
 impl ToInputEdit for Rope {
     fn to_point(&self, position: Position) -> Point {
-        Point::new(position.line as usize, position.character as usize)
+        let offset = self.to_byte(position);
+        let row = self.byte_to_line(offset);
+        Point::new(row, offset - self.line_to_byte(row))
+    }
+
+    /// Columns are utf-16 code units, positions after the end are moved to the end.
+    fn to_char(&self, position: Position) -> usize {
+        let line = position.line as usize;
+        if line >= self.len_lines() {
+            return self.len_chars();
+        }
+        let text = self.line(line);
+        let length: usize = text
+            .chars()
+            .take_while(|c| *c != '\n' && *c != '\r')
+            .map(char::len_utf16)
+            .sum();
+        let column = length.min(position.character as usize);
+        self.line_to_char(line) + text.utf16_cu_to_char(column)
     }
 
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
+        self.char_to_byte(self.to_char(position))
     }
 
     fn to_position(&self, mut offset: usize) -> Position {
@@ -52,8 +70,13 @@ impl ToInputEdit for Rope {
         let start_position = self.to_point(start);
 
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
+        let new_end_position = match text.rfind('\n') {
+            Some(last) => Point::new(
+                start_position.row + text.matches('\n').count(),
+                text.len() - last - 1,
+            ),
+            None => Point::new(start_position.row, start_position.column + text.len()),
+        };
 
         let old_end_byte = self.to_byte(end);
         let old_end_position = self.to_point(end);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 6e37a05..83a4a4c 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -157,24 +157,29 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
-            let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
-            if start <= end {
+            let mut input_edit = None;
+            if let Some(range) = change.range {
+                let range = Range::new(range.start.min(range.end), range.start.max(range.end));
+                input_edit = Some(rope.to_input_edit(range, &change.text));
+                let start = rope.to_char(range.start);
+                let end = rope.to_char(range.end);
                 rope.remove(start..end);
+                if !change.text.is_empty() {
+                    rope.insert(start, &change.text);
+                }
             } else {
-                rope.remove(end..start);
-            }
-            if !change.text.is_empty() {
-                rope.insert(start, &change.text);
+                *rope = Rope::from_str(&change.text);
             }
             let mut w = FileContent::default();
             let _ = rope.write_to(&mut w);
             changes.push((w.content, input_edit));
         }
         for change in changes {
-            self.input_edit(&uri, change.0, change.1, lang_type);
+            if let Some(input_edit) = change.1 {
+                self.input_edit(&uri, change.0, input_edit, lang_type);
+            } else {
+                self.add_tree(&uri, lang_type?, &change.0);
+            }
         }
         let param = DidSaveTextDocumentParams {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
-- 
2.43.0


From bd22799601198a9560c26f407b1d0152fba97644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 03/31] fix: never wait for a place in a queue that only the
 waiting task drains

---
 jinja-lsp/src/backend.rs              |  2 +-
 jinja-lsp/src/channels/diagnostics.rs |  4 ++--
 jinja-lsp/src/channels/lsp.rs         | 22 ++++++++++++++--------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..1bd69aa 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -156,7 +156,7 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
             client.clone(),
             diagnostic_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..fe92399 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Sender, UnboundedReceiver};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -13,7 +13,7 @@ use super::lsp::LspMessage;
 
 pub fn diagnostics_task(
     client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
+    mut receiver: UnboundedReceiver<DiagnosticMessage>,
     lsp_channel: Sender<LspMessage>,
 ) {
     tokio::spawn(async move {
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..c478b23 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -31,7 +31,7 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
 ) {
@@ -128,9 +128,8 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
+                                let _ =
+                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
@@ -151,7 +150,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -333,13 +332,17 @@ pub fn lsp_task(
                     let command = params.command;
                     if command == "reset_variables" {
                         let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        // this task can't wait for a place in its own channel
+                        let lsp_channel = lsp_channel.clone();
+                        tokio::spawn(async move {
+                            let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        });
                         let _ = sender.send(None);
                     }
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DocumentSymbol(params, sender) => {
@@ -357,7 +360,10 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    let lsp_channel = lsp_channel.clone();
+                    tokio::spawn(async move {
+                        let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    });
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
-- 
2.43.0


From eff75e3a8032e43d1ab31dad3fe2505d84bf108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 04/31] fix: answer unusual positions, names and paths without
 panicking

---
 jinja-lsp-queries/src/search/definition.rs | 2 +-
 jinja-lsp-queries/src/search/mod.rs        | 2 +-
 jinja-lsp-queries/src/search/objects.rs    | 4 ++--
 jinja-lsp/src/channels/diagnostics.rs      | 5 +++--
 jinja-lsp/src/channels/lsp.rs              | 2 +-
 jinja-lsp/src/config.rs                    | 2 +-
 jinja-lsp/src/lsp_files.rs                 | 9 ++++++---
 7 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..ef3c1a5 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -163,7 +163,7 @@ impl JinjaDefinitions {
                 if self.all_ids.contains(&id) {
                     return Some(false);
                 }
-                let content = capture.node.utf8_text(text.as_bytes()).unwrap();
+                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
                 self.all_ids.insert(id);
                 let mut add_new_scope = true;
                 let mut definition = Definition::from(content);
diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..2538cd5 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,7 +61,7 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
-    let diff = identifier.end.column - trigger_point.column;
+    let diff = identifier.end.column.saturating_sub(trigger_point.column);
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
     }
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..8f3342d 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -273,7 +273,7 @@ pub fn objects_query(
                 } else if !continued {
                     if objects.is_hover(trigger_point) {
                         continued = true;
-                        my_id = objects.objects.len() - 1;
+                        my_id = objects.objects.len().saturating_sub(1);
                         my_expr = objects.expr;
                         continue;
                     } else {
@@ -300,7 +300,7 @@ pub fn objects_query(
                                 obj.capture_first = true;
                                 None
                             });
-                        if my_id != objects.objects.len() - 1 {
+                        if my_id != objects.objects.len().saturating_sub(1) {
                             objects.objects.pop();
                             objects.expr = my_expr;
                         }
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index fe92399..d75ad98 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -40,8 +40,9 @@ pub fn diagnostics_task(
                             );
                             v.push(diagnostic);
                         }
-                        let uri = Url::parse(&uri).unwrap();
-                        client.publish_diagnostics(uri, v, None).await;
+                        if let Ok(uri) = Url::parse(&uri) {
+                            client.publish_diagnostics(uri, v, None).await;
+                        }
                     }
                     let _ = lsp_channel
                         .send(LspMessage::CodeActions(code_actions))
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index c478b23..cd91bd5 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -116,7 +116,7 @@ pub fn lsp_task(
                             .log_message(MessageType::WARNING, "Config doesn't exist.")
                             .await;
                     }
-                    if config.templates.as_path().to_str().unwrap().is_empty() {
+                    if config.templates.as_os_str().is_empty() {
                         client
                             .log_message(MessageType::WARNING, "Template directory not found")
                             .await;
diff --git a/jinja-lsp/src/config.rs b/jinja-lsp/src/config.rs
index 96f6761..7ebde8d 100644
--- a/jinja-lsp/src/config.rs
+++ b/jinja-lsp/src/config.rs
@@ -71,7 +71,7 @@ pub type InitLsp = (
 );
 
 pub fn walkdir(config: &JinjaConfig) -> anyhow::Result<InitLsp> {
-    let mut all = vec![config.templates.to_str().unwrap().to_string().clone()];
+    let mut all = vec![config.templates.to_string_lossy().to_string()];
     let mut backend = config.backend.clone();
     all.append(&mut backend);
     let mut lsp_files = LspFiles::default();
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 83a4a4c..3efddc4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -274,7 +274,7 @@ impl LspFiles {
                 if snippets.to_complete(point).is_some() {
                     let start = to_position2(point);
                     let mut end = to_position2(point);
-                    end.character += 1;
+                    end.character = end.character.saturating_add(1);
                     let range = Range::new(start, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
@@ -438,11 +438,14 @@ impl LspFiles {
                                 if variable.start == Point::new(0, 0)
                                     && variable.end == Point::new(0, 0)
                                 {
-                                    Url::parse(&format!("{}-{}", &file.0, &variable.name)).unwrap()
+                                    Url::parse(&format!("{}-{}", &file.0, &variable.name))
                                 } else {
-                                    Url::parse(file.0).unwrap()
+                                    Url::parse(file.0)
                                 }
                             };
+                            let Ok(uri) = uri else {
+                                continue;
+                            };
                             let start = to_position2(variable.start);
                             let end = to_position2(variable.end);
                             let range = Range::new(start, end);
-- 
2.43.0


From 5912dd1b67da46eeacb394d0142a096340fba576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 05/31] fix: derive document and template URIs from paths with
 proper escaping

---
 jinja-lsp/src/lsp_files.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 3efddc4..86195cf 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -67,7 +67,7 @@ impl LspFiles {
             let name = name.to_str()?;
             let file_content = read_to_string(name).ok()?;
             let rope = Rope::from_str(&file_content);
-            let name = format!("file://{}", name);
+            let name = Url::from_file_path(name).ok()?.to_string();
             let adding = name.clone();
             self.documents.insert(name.to_string(), rope);
             self.add_tree(&name, lang_type, &file_content);
@@ -417,8 +417,7 @@ impl LspFiles {
                     let mut path = self.config.templates.clone();
                     path.push(&identifier.name);
                     let buffer = std::fs::canonicalize(path).ok()?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -467,8 +466,7 @@ impl LspFiles {
                 let mut path = self.config.templates.clone();
                 path.push(&template.name);
                 let buffer = std::fs::canonicalize(path).ok()?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
@@ -544,9 +542,8 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        uri: Url::from_file_path(path).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
@@ -703,23 +700,19 @@ impl LspFiles {
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
         if prefix.is_empty() {
-            prefix = String::from("file:///");
+            prefix = String::from("/");
         }
+        let root = std::fs::canonicalize(&self.config.templates).ok()?;
         let templates = all_templates
             .keys()
-            .filter(|template| template.contains(&prefix));
+            .filter_map(|template| Url::parse(template).ok()?.to_file_path().ok())
+            .filter(|template| template.to_string_lossy().contains(&prefix));
         let mut abc = vec![];
         for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+            let Ok(label) = template.strip_prefix(&root) else {
+                continue;
+            };
+            let label = label.to_string_lossy().to_string();
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From 049f7c60795b99856be2fb4087e178dd62471867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 06/31] fix: resolve template names in go to definition as
 diagnostics do

---
 jinja-lsp/src/lsp_files.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 86195cf..a400f48 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -415,7 +415,7 @@ impl LspFiles {
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
+                    path.push(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
                     let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
@@ -464,7 +464,7 @@ impl LspFiles {
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
-                path.push(&template.name);
+                path.push(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
                 let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
-- 
2.43.0


From 8a53da72f71e334018deb1b9a487ae7a7097d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 07/31] fix: keep the pending diagnostics of every changed
 document

---
 jinja-lsp/src/lsp_files.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index a400f48..bdae9ed 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -53,7 +53,7 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    pub diagnostics_task: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -185,16 +185,17 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
+        if let Some(task) = self.diagnostics_task.get(&uri) {
             task.abort();
         }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        self.diagnostics_task.insert(uri, task);
         None
     }
 
@@ -907,7 +908,7 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
+        let diagnostics_task = HashMap::new();
         let main_channel = None;
         Self {
             trees,
@@ -936,7 +937,7 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
+        let task = HashMap::new();
         Self {
             trees,
             documents,
-- 
2.43.0


From d944fa934a9d75e2d20bd8dc5b96303d40011847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 08/31] fix: announce open and close notifications, which are
 handled

---
 jinja-lsp/src/channels/lsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index cd91bd5..ce137ba 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -74,8 +74,8 @@ pub fn lsp_task(
                         capabilities: ServerCapabilities {
                             text_document_sync: Some(TextDocumentSyncCapability::Options(
                                 TextDocumentSyncOptions {
+                                    open_close: Some(true),
                                     change: Some(TextDocumentSyncKind::INCREMENTAL),
-                                    will_save: Some(true),
                                     save: Some(TextDocumentSyncSaveOptions::Supported(true)),
                                     ..Default::default()
                                 },
-- 
2.43.0


From 17719c5c184e9b7b3ef80b908816ec6b9fab8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 09/31] fix: clear problems of documents that can't be analysed

---
 jinja-lsp/src/lsp_files.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index bdae9ed..9b7f690 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -589,10 +589,8 @@ impl LspFiles {
 
     pub fn read_trees(&self, diags: &mut HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>) {
         for tree in self.trees.get(&LangType::Template).unwrap() {
-            let errors = self.read_tree(tree.0);
-            if let Some(errors) = errors {
-                diags.insert(String::from(tree.0), errors);
-            }
+            let errors = self.read_tree(tree.0).unwrap_or_default();
+            diags.insert(String::from(tree.0), errors);
         }
     }
 
@@ -787,7 +785,7 @@ impl LspFiles {
         if ignore {
             return Some(DiagnosticMessage::Errors(hm));
         }
-        let diagnostics = self.read_tree(name)?;
+        let diagnostics = self.read_tree(name).unwrap_or_default();
         hm.insert(name.to_owned(), diagnostics);
         let msg = DiagnosticMessage::Errors(hm);
         Some(msg)
-- 
2.43.0


From a183b9789dfe15b8171c7bcee80459d08e68010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 10/31] fix: don't abort the node process on lines above the
 fragment or plain file names

---
 jinja-lsp-nodejs/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 3436232..09c7339 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -260,7 +260,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<JsHover> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: HoverParams = HoverParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -343,7 +343,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsCompletionItem>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let original_uri = filename.to_string();
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let position = Position::new(position.line, position.character);
@@ -474,7 +474,7 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsLocation>> {
-    position.line -= line;
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: GotoDefinitionParams = GotoDefinitionParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -494,7 +494,9 @@ impl NodejsLspFiles {
       GotoDefinitionResponse::Scalar(mut location) => {
         let uri2 = location.uri.to_string();
         if uri2.contains(&filename) {
-          location.uri = Url::parse(&filename).unwrap();
+          if let Ok(uri) = Url::parse(&filename) {
+            location.uri = uri;
+          }
           location.range.start.line += line;
           location.range.end.line += line;
           definitions.push(JsLocation::from(&location));
@@ -504,7 +506,6 @@ impl NodejsLspFiles {
         for mut location in locations {
           let uri2 = location.uri.to_string();
           if uri2.contains("temp") {
-            location.uri = Url::parse(&uri2).unwrap();
             location.range.start.line += line;
             location.range.end.line += line;
             let mut js_location = JsLocation::from(&location);
-- 
2.43.0


From 8403b2b75cab7ded06f31accca5770524011a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 11/31] fix: remove deleted documents from every store

---
 jinja-lsp/src/lsp_files.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 9b7f690..6db8e7e 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -894,8 +894,9 @@ impl LspFiles {
         for i in ids {
             self.documents.remove(&i);
             self.variables.remove(&i);
-            if let Some(templates) = self.trees.get_mut(&LangType::Template) {
-                templates.remove(&i);
+            self.code_actions.remove(&i);
+            for trees in self.trees.values_mut() {
+                trees.remove(&i);
             }
         }
     }
-- 
2.43.0


From bd35b86b187aab9f14a3a5e9fab2bdf0e016f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 12/31] fix: schedule diagnostics of changed documents also
 when no scan succeeded yet

The link to the message queue was only set after a successful scan, so with an
unreadable templates directory or an unsupported backend language no change
notification ever refreshed diagnostics.
---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index ce137ba..b2c5d15 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -37,6 +37,7 @@ pub fn lsp_task(
 ) {
     let mut config = JinjaConfig::default();
     let mut lsp_data = LspFiles::default();
+    lsp_data.main_channel = Some(lsp_channel.clone());
     let filters = init_filter_completions();
     let template_tests = init_template_test_completions();
     let snippets = snippets();
-- 
2.43.0


From fa01806cb349adfc12c863f2decc52507a3225f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:36 +0000
Subject: [PATCH 13/31] fix: go to definition leads nowhere when no identifier
 is under the cursor

---
 jinja-lsp/src/lsp_files.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 6db8e7e..789d93b 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -425,6 +425,9 @@ impl LspFiles {
                     None
                 });
                 res.is_none().then(|| -> Option<()> {
+                    if current_ident.is_empty() {
+                        return None;
+                    }
                     let mut all: Vec<Location> = vec![];
                     for file in &self.variables {
                         if file.0 == &uri {
-- 
2.43.0


From 86f16eca9b685273d6ae78c3ea54cf3f81fdc0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 14/31] fix: report template names that are empty in backend
 files or lead through a file

---
 jinja-lsp-queries/src/lsp_helper.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..ebd61f6 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, io::ErrorKind, path::PathBuf};
+use std::{collections::HashMap, path::PathBuf};
 
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 use tree_sitter::{Point, Tree};
@@ -99,11 +99,9 @@ pub fn search_errors(
                 } else {
                     let mut templates = templates.clone();
                     templates.push(path_items(&i.name));
-                    if let Err(err) = std::fs::canonicalize(templates) {
-                        if err.kind() == ErrorKind::NotFound {
-                            let diagnostic = (err_type, i.to_owned());
-                            diagnostics.push(diagnostic);
-                        }
+                    if std::fs::canonicalize(templates).is_err() {
+                        let diagnostic = (err_type, i.to_owned());
+                        diagnostics.push(diagnostic);
                     }
                 }
             }
@@ -117,11 +115,9 @@ pub fn search_errors(
             for template in templates2 {
                 let mut templates = templates.clone();
                 templates.push(path_items(&template.name));
-                if let Err(err) = std::fs::canonicalize(templates) {
-                    if err.kind() == ErrorKind::NotFound {
-                        let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
-                        diagnostics.push(diagnostic);
-                    }
+                if template.name.is_empty() || std::fs::canonicalize(templates).is_err() {
+                    let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
+                    diagnostics.push(diagnostic);
                 }
             }
             Some(diagnostics)
-- 
2.43.0


From dae01c37b0b3ebdb577ae0c1b1cefdaa09408a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:05 +0000
Subject: [PATCH 15/31] fix: record the second variable of for loops

---
 jinja-lsp-queries/src/search/definition.rs | 14 +++++++++-----
 jinja-lsp-queries/src/search/queries.rs    |  5 +++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index ef3c1a5..42e5100 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -209,6 +209,12 @@ impl JinjaDefinitions {
                     self.can_open_scope = false;
                 }
             }
+            "in" => {
+                // identifiers after this keyword are used, not defined
+                if let Some(Definition::ForLoop { .. }) = self.definitions.last() {
+                    self.can_add_id = false;
+                }
+            }
             "error" => {
                 return None;
             }
@@ -231,11 +237,9 @@ impl JinjaDefinitions {
                         Definition::ForLoop { key, value } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
-                                }
+                            } else if value.is_none() {
+                                *value = Some(identifier);
+                                self.can_add_id = false;
                             }
                         }
                         Definition::Set { key, .. } => {
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..3618e24 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -215,6 +215,11 @@ const DEFINITIONS: &str = r#"
         (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
     )
 
+    (
+        (keyword) @in
+        (#eq? @in "in")
+    )
+
     (
         (keyword) @endblock
         (#match? @endblock "^end")
-- 
2.43.0


From 9907dd36570a7489cd58f5470d2dce65cd8c0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 16/31] fix: only the first keyword of a tag defines names or
 opens a scope

---
 jinja-lsp-queries/src/search/queries.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 3618e24..083032e 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -205,13 +205,13 @@ const DEFINITIONS: &str = r#"
   (identifier) @id
   (#not-match? @id "^(\\d+)$")
 )
-    (
-    	(keyword) @definition
+    (statement
+    	(statement_begin) . (keyword) @definition
         (#match? @definition "^(for|set|with|macro|block)$")
     )
     
-    (
-    	(keyword) @scope
+    (statement
+    	(statement_begin) . (keyword) @scope
         (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
     )
 
-- 
2.43.0


From 05590200d4b739fd222b0bb43e4904db40cc5a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 17/31] fix: end scopes at the end tag of the construct that
 opened them

---
 jinja-lsp-queries/src/search/queries.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 083032e..5d8ece1 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -212,7 +212,7 @@ const DEFINITIONS: &str = r#"
     
     (statement
     	(statement_begin) . (keyword) @scope
-        (#match? @scope "^(if|elif|else|filter|autoescape|raw)$")
+        (#match? @scope "^(filter|autoescape|raw)$")
     )
 
     (
@@ -222,7 +222,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end")
+        (#match? @endblock "^end(for|with|macro|block|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From 0de046c0028b2ec3afbc9be221c62134582f026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:25 +0000
Subject: [PATCH 18/31] fix: unfinished tags define no variable without a name

---
 jinja-lsp-queries/src/search/definition.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 42e5100..e29deba 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -296,7 +296,8 @@ impl JinjaDefinitions {
         for id in self.definitions {
             id.collect(&mut ids);
         }
-
+        // unfinished tags bind no name yet
+        ids.retain(|id| !id.name.is_empty());
         ids
     }
 
-- 
2.43.0


From b92fa68bfdbee1628fd3cfc59d3d86cd7f4d2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:54 +0000
Subject: [PATCH 19/31] fix: the words "with context" of an include are no
 variable

---
 jinja-lsp-queries/src/search/objects.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8f3342d..b7420e7 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -65,6 +65,17 @@ impl JinjaObjects {
                 return None;
             }
             "just_id" => {
+                // "context" in "include .. with context" is no variable
+                let with = capture.node.prev_sibling();
+                let with_context = with.is_some_and(|with| {
+                    with.utf8_text(source.as_bytes()) == Ok("with")
+                        && with
+                            .prev_sibling()
+                            .is_some_and(|node| node.kind() != "statement_begin")
+                });
+                if with_context {
+                    return Some(ObjectAction::Invalid);
+                }
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
-- 
2.43.0


From 47ade3463f3bd20bb1309c24482aef16500a789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:49 +0000
Subject: [PATCH 20/31] fix: words of the language in expressions are no
 variables, and only the name behind "is" is a test

---
 jinja-lsp-queries/src/search/objects.rs | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index b7420e7..6147934 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -76,6 +76,12 @@ impl JinjaObjects {
                 if with_context {
                     return Some(ObjectAction::Invalid);
                 }
+                // in expressions "is" is no keyword
+                let is_field = start == self.dot.1;
+                if !is_field && capture.node.utf8_text(source.as_bytes()) == Ok("is") {
+                    self.test = (start, end, true);
+                    return Some(ObjectAction::NewTest);
+                }
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
@@ -116,6 +122,7 @@ impl JinjaObjects {
         let value = capture.node.utf8_text(source.as_bytes());
         let start = capture.node.start_position();
         let end = capture.node.end_position();
+        let is_test = self.follows_is(capture, source);
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
                 let last_object = self.objects.last_mut().map(|last| {
@@ -126,11 +133,10 @@ impl JinjaObjects {
                     Some(_) => {}
                     None => {
                         // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) {
+                        if VALID_IDENTIFIERS.contains(&value) && !(is_test && value != "not") {
                             return ObjectAction::Invalid;
                         }
                         self.ident = (start, end);
-                        let is_test = self.test.2;
                         let is_filter = self.is_hover(start) && self.is_filter();
                         let obj =
                             JinjaObject::new(String::from(value), start, end, is_filter, is_test);
@@ -141,11 +147,10 @@ impl JinjaObjects {
                 }
             } else {
                 // TODO: in future add those to main library
-                if VALID_IDENTIFIERS.contains(&value) {
+                if VALID_IDENTIFIERS.contains(&value) && !(is_test && value != "not") {
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
-                let is_test = self.test.2;
                 let is_filter = self.is_hover(start) && self.is_filter();
                 self.objects.push(JinjaObject::new(
                     String::from(value),
@@ -161,6 +166,15 @@ impl JinjaObjects {
         ObjectAction::Invalid
     }
 
+    /// directly behind "is" or "is not"
+    fn follows_is(&self, capture: &QueryCapture<'_>, source: &str) -> bool {
+        let mut before = capture.node.prev_sibling();
+        if before.is_some_and(|node| node.utf8_text(source.as_bytes()) == Ok("not")) {
+            before = before.and_then(|node| node.prev_sibling());
+        }
+        self.test.2 && before.is_some_and(|node| node.start_position() == self.test.0)
+    }
+
     pub fn completion(&self, trigger_point: Point) -> Option<(CompletionType, bool)> {
         let autoclose = self.should_autoclose();
         if self.in_pipe(trigger_point) {
@@ -335,8 +349,9 @@ pub enum CompletionType {
     IncompleteFilter { name: String, range: Range },
 }
 
-static VALID_IDENTIFIERS: [&str; 8] = [
-    "loop", "true", "false", "not", "as", "module", "super", "url_for",
+static VALID_IDENTIFIERS: [&str; 17] = [
+    "loop", "true", "false", "not", "as", "module", "super", "url_for", "if", "else", "and", "or",
+    "in", "none", "None", "True", "False",
 ];
 
 #[derive(Default, Debug, Clone, Copy)]
-- 
2.43.0


From 5fb0209479c867084cc03d9f26a67268938f39d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:15 +0000
Subject: [PATCH 21/31] fix: names behind a pipe that follows a bracket are
 filters

---
 jinja-lsp-queries/src/search/objects.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 6147934..b3e71d5 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -92,6 +92,12 @@ impl JinjaObjects {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
                 if content.starts_with('|') {
                     self.pipe = (start, end);
+                } else if let Some(before) = content.trim_end().strip_suffix('|') {
+                    // closing brackets in front of it are part of the same operator
+                    let lines = before.matches('\n').count();
+                    let line = before.rsplit('\n').next().map_or(0, str::len);
+                    let column = if lines > 0 { line } else { start.column + line };
+                    self.pipe = (Point::new(start.row + lines, column), end);
                 }
                 return Some(ObjectAction::NewFilter);
             }
-- 
2.43.0


From 3d0b0e64814021ee69e636f8c484d718c66d3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:08 +0000
Subject: [PATCH 22/31] fix: fields of values that are no variables are no
 variables

---
 jinja-lsp-queries/src/search/objects.rs | 29 ++++++++++---------------
 jinja-lsp-queries/src/search/queries.rs |  2 +-
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index b3e71d5..066030c 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -45,6 +45,7 @@ impl JinjaObject {
 pub struct JinjaObjects {
     objects: Vec<JinjaObject>,
     dot: (Point, Point),
+    dot_of: Option<(Point, Point)>,
     pipe: (Point, Point),
     test: (Point, Point, bool),
     expr: (Point, Point, ExpressionRange),
@@ -86,6 +87,13 @@ impl JinjaObjects {
             }
             "dot" => {
                 self.dot = (start, end);
+                // closing brackets in front of it are part of the same operator
+                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
+                self.dot_of = capture
+                    .node
+                    .prev_sibling()
+                    .filter(|_| content.trim_end() == ".")
+                    .map(|node| (node.start_position(), node.end_position()));
                 return Some(ObjectAction::NewField);
             }
             "pipe" => {
@@ -131,24 +139,11 @@ impl JinjaObjects {
         let is_test = self.follows_is(capture, source);
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
-                let last_object = self.objects.last_mut().map(|last| {
-                    last.fields.push((String::from(value), (start, end)));
-                    self.ident = (start, end);
-                });
-                match last_object {
-                    Some(_) => {}
-                    None => {
-                        // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) && !(is_test && value != "not") {
-                            return ObjectAction::Invalid;
-                        }
+                // fields of values that are no variables are no objects
+                if self.dot_of == Some(self.ident) {
+                    if let Some(last) = self.objects.last_mut() {
+                        last.fields.push((String::from(value), (start, end)));
                         self.ident = (start, end);
-                        let is_filter = self.is_hover(start) && self.is_filter();
-                        let obj =
-                            JinjaObject::new(String::from(value), start, end, is_filter, is_test);
-                        self.objects.push(obj);
-                        self.test.2 = false;
-                        return ObjectAction::NewObject;
                     }
                 }
             } else {
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 5d8ece1..ed40fcb 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -57,7 +57,7 @@ const OBJECTS: &str = r#"
     [
         (
             (operator) @dot
-            (#eq? @dot "\.")
+            (#match? @dot "\\.\\s*$")
         )
 
         (
-- 
2.43.0


From 6916efe0eb264d6bf4dc9c8109ad84d42aa3ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 23/31] fix: words like "ignore missing" and "recursive" are no
 variables

---
 jinja-lsp-queries/src/search/objects.rs | 55 ++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 066030c..4f9070d 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::Range;
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{completion_start, to_range, to_range2, Identifier};
 
@@ -66,15 +66,7 @@ impl JinjaObjects {
                 return None;
             }
             "just_id" => {
-                // "context" in "include .. with context" is no variable
-                let with = capture.node.prev_sibling();
-                let with_context = with.is_some_and(|with| {
-                    with.utf8_text(source.as_bytes()) == Ok("with")
-                        && with
-                            .prev_sibling()
-                            .is_some_and(|node| node.kind() != "statement_begin")
-                });
-                if with_context {
+                if is_modifier(capture.node, source) {
                     return Some(ObjectAction::Invalid);
                 }
                 // in expressions "is" is no keyword
@@ -339,6 +331,49 @@ pub fn objects_query(
     objects
 }
 
+fn text_of<'a>(node: Option<Node<'_>>, source: &'a str) -> &'a str {
+    node.and_then(|node| node.utf8_text(source.as_bytes()).ok())
+        .unwrap_or_default()
+}
+
+/// the keyword of the tag that contains this node
+fn tag_keyword<'a>(node: Node<'_>, source: &'a str) -> &'a str {
+    let first = node.parent().and_then(|tag| tag.child(1));
+    text_of(first.filter(|node| node.kind() == "keyword"), source)
+}
+
+/// words like "ignore missing" and "recursive", which are no variables
+fn is_modifier(node: Node<'_>, source: &str) -> bool {
+    let before = node.prev_sibling();
+    let after = node.next_sibling();
+    match text_of(Some(node), source) {
+        "context" => match text_of(before, source) {
+            "without" => true,
+            "with" => before
+                .and_then(|with| with.prev_sibling())
+                .is_some_and(|node| node.kind() != "statement_begin"),
+            _ => false,
+        },
+        "without" => text_of(after, source) == "context",
+        "ignore" => text_of(after, source) == "missing",
+        "missing" => text_of(before, source) == "ignore",
+        "scoped" | "required" => {
+            tag_keyword(node, source) == "block"
+                && before.is_some_and(|node| node.kind() == "identifier")
+        }
+        "recursive" => {
+            let before_text = text_of(before, source).trim_end();
+            tag_keyword(node, source) == "for"
+                && after.is_some_and(|node| node.kind() == "statement_end")
+                && before.is_some_and(|node| match node.kind() {
+                    "identifier" => before_text != "not",
+                    _ => before_text.ends_with(')') || before_text.ends_with(']'),
+                })
+        }
+        _ => false,
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum CompletionType {
     Filter,
-- 
2.43.0


From 7344e780a16090873f63056214b8b5638ebc1f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:16 +0000
Subject: [PATCH 24/31] fix: names of keyword arguments are no variables

---
 jinja-lsp-queries/src/search/objects.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 4f9070d..95ac185 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -66,7 +66,7 @@ impl JinjaObjects {
                 return None;
             }
             "just_id" => {
-                if is_modifier(capture.node, source) {
+                if is_modifier(capture.node, source) || is_argument_name(capture.node, source) {
                     return Some(ObjectAction::Invalid);
                 }
                 // in expressions "is" is no keyword
@@ -374,6 +374,20 @@ fn is_modifier(node: Node<'_>, source: &str) -> bool {
     }
 }
 
+/// names of keyword arguments, like "a" in "f(a=1)"
+fn is_argument_name(node: Node<'_>, source: &str) -> bool {
+    let after = text_of(node.next_sibling(), source);
+    if !after.starts_with('=') || after.starts_with("==") {
+        return false;
+    }
+    let before = text_of(node.prev_sibling(), source).trim_end();
+    match tag_keyword(node, source) {
+        "macro" => false,
+        "set" | "with" => before.ends_with('('),
+        _ => before.ends_with('(') || before.ends_with(','),
+    }
+}
+
 #[derive(PartialEq, Debug)]
 pub enum CompletionType {
     Filter,
-- 
2.43.0


From bdd4c7fc9f6ab11557e0191dfefc6ca25d905535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:45 +0000
Subject: [PATCH 25/31] fix: the name behind the keyword filter is a filter

---
 jinja-lsp-queries/src/search/objects.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 95ac185..5efdf53 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -129,6 +129,7 @@ impl JinjaObjects {
         let start = capture.node.start_position();
         let end = capture.node.end_position();
         let is_test = self.follows_is(capture, source);
+        let before = capture.node.prev_sibling();
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
                 // fields of values that are no variables are no objects
@@ -144,7 +145,10 @@ impl JinjaObjects {
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
-                let is_filter = self.is_hover(start) && self.is_filter();
+                let is_filter = self.is_hover(start) && self.is_filter()
+                    || before.is_some_and(|node| {
+                        node.kind() == "keyword" && text_of(before, source) == "filter"
+                    });
                 self.objects.push(JinjaObject::new(
                     String::from(value),
                     start,
-- 
2.43.0


From fe5fde5aef09865feb3006fb9463b06a149e9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:10 +0000
Subject: [PATCH 26/31] fix: accepting a variable in VS Code put only the typed
 part in its place

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 789d93b..2b938bc 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -641,7 +641,7 @@ impl LspFiles {
                         let mut edits = vec;
                         edits.push(TextEdit {
                             range: incomplete_range,
-                            new_text: start_item.to_string(),
+                            new_text: identifier.name.to_string(),
                         });
                         additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-- 
2.43.0


From a75c490a261e918cfe4ab98d5e32aafa8fe7ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:24 +0000
Subject: [PATCH 27/31] fix: snippets were inserted as plain text

---
 jinja-lsp-queries/src/search/snippets_completion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/snippets_completion.rs b/jinja-lsp-queries/src/search/snippets_completion.rs
index 207f682..431a389 100644
--- a/jinja-lsp-queries/src/search/snippets_completion.rs
+++ b/jinja-lsp-queries/src/search/snippets_completion.rs
@@ -1,6 +1,6 @@
 use crate::to_input_edit::to_position2;
 use tower_lsp::lsp_types::{
-    CompletionItem, CompletionItemKind, CompletionTextEdit, Range, TextEdit,
+    CompletionItem, CompletionItemKind, CompletionTextEdit, InsertTextFormat, Range, TextEdit,
 };
 use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
 
@@ -173,6 +173,7 @@ pub fn snippets() -> Vec<CompletionItem> {
             label: snippet.0.to_owned(),
             detail: Some(snippet.1.to_owned()),
             kind: Some(CompletionItemKind::SNIPPET),
+            insert_text_format: Some(InsertTextFormat::SNIPPET),
             text_edit: Some(text_edit),
             ..Default::default()
         };
-- 
2.43.0


From b76dcfd7c47fa63cb0bd194a10940f48ba69fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:32 +0000
Subject: [PATCH 28/31] fix: accepting a snippet in VS Code inserted its label

---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index b2c5d15..3e730c8 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -233,6 +233,7 @@ pub fn lsp_task(
                                                 ));
                                         } else {
                                             snippet.text_edit = None;
+                                            snippet.insert_text = Some(new_text);
                                         }
                                     }
                                     filtered.push(snippet);
-- 
2.43.0


From 629d6d2a04894b77a2035d30b31da9d8d1d32268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:44 +0000
Subject: [PATCH 29/31] fix: go to definition on the fields of a variable finds
 the variable

---
 jinja-lsp/src/lsp_files.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 2b938bc..e7f5522 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -395,7 +395,10 @@ impl LspFiles {
             LangType::Template => {
                 let query = &self.queries.jinja_objects;
                 let objects = objects_query(query, tree, point, &writter.content, false);
-                let mut res = objects.is_ident(point).and_then(|ident| {
+                // also in its fields
+                let object = objects.get_last_id().filter(|_| objects.is_hover(point));
+                let mut res = object.and_then(|object| {
+                    let ident = object.name.clone();
                     ident.clone_into(&mut current_ident);
                     let variables = self.variables.get(&uri)?;
                     let max = variables
-- 
2.43.0


From ed1d4b176dca6269f5e68962ae9d18951ca251c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:10 +0000
Subject: [PATCH 30/31] fix: completion in front of a pipe and at the start of
 a document offers no filters

---
 jinja-lsp-queries/src/search/objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 5efdf53..39ac307 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -206,7 +206,7 @@ impl JinjaObjects {
     }
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
-        trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        trigger_point > self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
-- 
2.43.0


From 3126b67f36e23bfbfbbfc09c687ed3213f7cc959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:36 +0000
Subject: [PATCH 31/31] fix: completion in front of an expression offers no
 variables

---
 jinja-lsp-queries/src/search/objects.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 39ac307..b0f49b7 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -210,7 +210,7 @@ impl JinjaObjects {
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
-        let in_expr = trigger_point >= self.expr.0 && trigger_point < self.expr.1;
+        let in_expr = trigger_point > self.expr.0 && trigger_point < self.expr.1;
         let after_ident = trigger_point > self.ident.0;
         let no_ident = self.expr.2.begin.1 == self.expr.2.end.0;
         if !in_expr {
-- 
2.43.0

