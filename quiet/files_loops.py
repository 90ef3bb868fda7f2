import sys; sys.path.insert(0, '/verif/quiet')
from q import *
rep(L, '''        for change in changes {
            if let Some(input_edit) = change.1 {
                self.input_edit(&uri, change.0, input_edit, lang_type);
            } else {
                self.add_tree(&uri, lang_type?, &change.0);
            }
        }
''', '''        for (content, edit) in changes {
            match edit {
                Some(edit) => {
                    self.input_edit(&uri, content, edit, lang_type);
                }
                None => {
                    self.add_tree(&uri, lang_type?, &content);
                }
            }
        }
''')
rep(L, '''        for code_action in code_actions {
            if let Some(item) = self.code_actions.get_mut(&code_action.0) {
                *item = code_action.1;
            } else {
                self.code_actions.insert(code_action.0, code_action.1);
            }
        }
''', '''        for (uri, actions) in code_actions {
            self.code_actions.insert(uri, actions);
        }
''')
rep(L, '''        let mut hm = HashMap::new();
        let v = self.read_tree(uri);
        if let Some(v) = v {
            hm.insert(uri.to_owned(), v);
        } else {
            hm.insert(uri.to_owned(), vec![]);
        }
        let message = DiagnosticMessage::Errors(hm);
        Some(message)
''', '''        let problems = self.read_tree(uri).unwrap_or_default();
        Some(DiagnosticMessage::Errors(HashMap::from([(
            uri.to_owned(),
            problems,
        )])))
''')
rep(L, '''        self.variables.get_mut(uri)?.clear();
        self.variables.get_mut(uri)?.clear();
        Some(())
''', '''        let variables = self.variables.get_mut(uri)?;
        variables.clear();
        Some(())
''')
rep(L, '''        for tree in self.trees.get(&LangType::Template).unwrap() {
            let errors = self.read_tree(tree.0).unwrap_or_default();
            diags.insert(String::from(tree.0), errors);
        }
''', '''        let Some(trees) = self.trees.get(&LangType::Template) else {
            return;
        };
        for name in trees.keys() {
            let errors = match self.read_tree(name) {
                Some(errors) => errors,
                None => Vec::new(),
            };
            diags.insert(name.clone(), errors);
        }
''')
rep(L, '''        let mut ids = vec![];
        for i in &self.documents {
            if i.0.contains(&id) {
                ids.push(i.0.clone());
            }
        }
        for i in ids {
            self.documents.remove(&i);
            self.variables.remove(&i);
            self.code_actions.remove(&i);
            for trees in self.trees.values_mut() {
                trees.remove(&i);
            }
        }
''', '''        let ids: Vec<String> = self
            .documents
            .keys()
            .filter(|name| name.contains(id.as_str()))
            .cloned()
            .collect();
        for name in &ids {
            for trees in self.trees.values_mut() {
                trees.remove(name);
            }
            self.variables.remove(name);
            self.code_actions.remove(name);
            self.documents.remove(name);
        }
''')
rep(L, '''        let mut symbols = vec![];
        let variables = self.variables.get(params.text_document.uri.as_str())?;
        for variable in variables {
            #[allow(deprecated)]
            let symbol = DocumentSymbol {
                name: variable.name.to_owned(),
                detail: None,
                kind: variable.identifier_type.symbol_kind(),
                range: to_range((variable.start, variable.end)),
                selection_range: to_range((variable.start, variable.end)),
                children: None,
                deprecated: None,
                tags: None,
            };
            symbols.push(symbol);
        }
        Some(DocumentSymbolResponse::Nested(symbols))
''', '''        let recorded = self.variables.get(params.text_document.uri.as_str())?;
        let symbols = recorded
            .iter()
            .map(|variable| {
                let range = to_range((variable.start, variable.end));
                #[allow(deprecated)]
                DocumentSymbol {
                    name: variable.name.clone(),
                    detail: None,
                    kind: variable.identifier_type.symbol_kind(),
                    range,
                    selection_range: range,
                    children: None,
                    deprecated: None,
                    tags: None,
                }
            })
            .collect();
        Some(DocumentSymbolResponse::Nested(symbols))
''')
