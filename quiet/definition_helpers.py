import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'definition.rs'
s = open(F).read()
a = s.index('    fn fix_end(&mut self')
b = s.index('pub fn definition_query(')
s = s[:a] + '''    fn fix_end(&mut self, last_line: Point) {
        let scopes = std::mem::take(&mut self.all_scopes);
        let end_of = |id: usize| -> Point {
            for scope in &scopes {
                if scope.id == id {
                    return scope.end;
                }
            }
            last_line
        };
        for definition in &mut self.definitions {
            match definition {
                Definition::Set { key: only, .. } | Definition::Block { name: only } => {
                    only.scope_ends.1 = end_of(only.scope_ends.0);
                }
                Definition::ForLoop { key, value } => {
                    let end = end_of(key.scope_ends.0);
                    key.scope_ends.1 = end;
                    if let Some(value) = value.as_mut() {
                        value.scope_ends.1 = end;
                    }
                }
                Definition::With { keys } => keys
                    .iter_mut()
                    .for_each(|key| key.scope_ends.1 = end_of(key.scope_ends.0)),
                Definition::Macro { keys, scope } => {
                    let mut keys = keys.iter_mut();
                    if let Some(name) = keys.next() {
                        name.scope_ends.1 = end_of(*scope);
                    }
                    for parameter in keys {
                        parameter.scope_ends.1 = end_of(parameter.scope_ends.0);
                    }
                }
            }
        }
        self.all_scopes = scopes;
    }

    fn innermost(&self) -> usize {
        match self.current_scope.front() {
            Some(scope) => scope.id,
            None => 0,
        }
    }

    fn open(&mut self, id: usize) {
        self.current_scope.push_front(Scope {
            id,
            ..Default::default()
        });
        self.can_close_scope = false;
        self.can_open_scope = true;
        self.is_end = false;
    }
}

''' + s[b:]
open(F, 'w').write(s)
rep(F, '''                    let current_scope = self.current_scope.front().unwrap_or(&Scope::default()).id;
                    *scope = current_scope;''', '''                    *scope = self.innermost();''')
rep(F, '''                if add_new_scope {
                    self.current_scope.push_front(Scope {
                        id,
                        ..Default::default()
                    });
                    self.can_close_scope = false;
                    self.can_open_scope = true;
                    self.is_end = false;
                    self.can_add_id = true;
                } else {
                    self.can_add_id = true;
                }''', '''                if add_new_scope {
                    self.open(id);
                }
                self.can_add_id = true;''')
rep(F, '''                self.can_close_scope = false;
                self.can_open_scope = true;
                self.is_end = false;
                self.can_add_id = false;
                self.current_scope.push_front(Scope {
                    id,
                    ..Default::default()
                });
''', '''                self.open(id);
                self.can_add_id = false;
''')
rep(F, '''                let mut identifier = Identifier::default();
                let start = capture.node.start_position();
                let end = capture.node.end_position();
                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
                let current_scope = self.current_scope.front().unwrap_or(&Scope::default()).id;
                identifier.start = start;
                identifier.end = end;
                content.to_owned().clone_into(&mut identifier.name);
                identifier.scope_ends.0 = current_scope;
''', '''                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
                let mut identifier = Identifier {
                    name: content.to_string(),
                    start: capture.node.start_position(),
                    end: capture.node.end_position(),
                    scope_ends: (self.innermost(), Point::default()),
                    ..Default::default()
                };
''')
