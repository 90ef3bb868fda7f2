import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = 'jinja-lsp/src/lsp_files.rs'
rep(F, '''        let trees = self.trees.get(&lang_type).unwrap();
        let tree = trees.get(name)?;
''', '''        let trees = &self.trees[&lang_type];
        if !trees.contains_key(name) {
            return None;
        }
        let tree = trees.get(name).unwrap();
''')
rep(F, '''        let lang_type = self.config.file_ext(&path)?;
        let doc = self.documents.get(uri)?;
''', '''        let lang_type = self.config.file_ext(&path);
        if lang_type.is_none() {
            return None;
        }
        let lang_type = lang_type.unwrap();
        let doc = match self.documents.get(uri) {
            Some(doc) => doc,
            None => return None,
        };
''')
rep('jinja-lsp-queries/src/search/mod.rs', '''    let to = len - diff;
    let s = identifier.name.get(0..to + 1);
    s
''', '''    assert!(diff <= len);
    let to = len - diff + 1;
    identifier.name.get(..to)
''')
rep('jinja-lsp-queries/src/to_input_edit.rs', '''        if line >= self.len_lines() {
            return self.len_chars();
        }
        let text = self.line(line);
''', '''        let text = match self.get_line(line) {
            Some(text) => text,
            None => return self.len_chars(),
        };
''')
