import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(L).read()
a = s.index('        let this_file = self.variables.get(uri)?;\n        let this_file = this_file\n            .iter()\n            .filter(|variable| {\n                variable.identifier_type != IdentifierType::TemplateBlock\n                    && variable')
b = s.index('        let is_nodejs = nodejs_uri.is_some();')
s = s[:a] + '''        let (prefix, range) = match starting {
            Some((prefix, range)) => (prefix, range),
            None => (String::new(), Range::default()),
        };
        for identifier in self.variables.get(uri)? {
            if !visible(identifier, position) || !names.insert(&identifier.name) {
                continue;
            }
            if !identifier.name.starts_with(&prefix) {
                continue;
            }
            let mut item = variable_item(identifier);
            if !prefix.is_empty() {
                if self.is_vscode {
                    item.text_edit = Some(CompletionTextEdit::Edit(TextEdit {
                        range: Range::new(range.start, range.start),
                        new_text: String::new(),
                    }));
                    item.additional_text_edits = Some(vec![TextEdit {
                        range,
                        new_text: identifier.name.clone(),
                    }]);
                } else {
                    item.text_edit =
                        Some(CompletionTextEdit::InsertAndReplace(InsertReplaceEdit {
                            new_text: identifier.name.clone(),
                            insert: range,
                            replace: range,
                        }));
                }
            }
            items.push(item);
        }
''' + s[b:]
o = '''                    items.push(CompletionItem {
                        label: variable.name.to_string(),
                        detail: Some(variable.identifier_type.completion_detail().to_owned()),
                        kind: Some(variable.identifier_type.completion_kind()),
                        ..Default::default() // detail: Some()
                    });
'''
assert o in s
s = s.replace(o, '''                    items.push(variable_item(variable));
''')
s = s.replace('''impl Default for LspFiles {''', '''fn visible(variable: &Identifier, position: Point) -> bool {
    match variable.identifier_type {
        IdentifierType::TemplateBlock | IdentifierType::JinjaTemplate => false,
        _ => variable.end <= position && position <= variable.scope_ends.1,
    }
}

fn variable_item(variable: &Identifier) -> CompletionItem {
    let kind = &variable.identifier_type;
    CompletionItem {
        label: variable.name.clone(),
        detail: Some(String::from(kind.completion_detail())),
        kind: Some(kind.completion_kind()),
        ..Default::default()
    }
}

impl Default for LspFiles {''', 1)
open(L, 'w').write(s)
