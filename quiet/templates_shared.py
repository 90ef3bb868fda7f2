import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'templates.rs'
s = open(F).read()
a = s.index('                    match last {\n                        Import::Extends { template } => {\n                            if template.name')
b = s.index('            "import_identifier" =>')
s = s[:a] + '''                    let mut found = Identifier::new(&name, start, end);
                    found.identifier_type = IdentifierType::JinjaTemplate;
                    match last {
                        Import::Include { templates } => templates.push(found),
                        Import::Extends { template }
                        | Import::From { template, .. }
                        | Import::Import { template, .. } => {
                            if template.name.is_empty() {
                                template.name = found.name;
                                template.start = found.start;
                                template.end = found.end;
                                template.identifier_type = found.identifier_type;
                            }
                        }
                    }
                }
            }
''' + s[b:]
a = s.index('            "include" => {'); b = s.index('            "template_name" => {')
s = s[:a] + '''            "include" => self.open(capture.node.id(), || Import::Include { templates: vec![] }),
            "import" => self.open(capture.node.id(), || Import::Import {
                template: Identifier::default(),
                identifier: Identifier::default(),
            }),
            "from" => self.open(capture.node.id(), || Import::From {
                template: Identifier::default(),
                identifiers: vec![],
            }),
''' + s[b:]
s = s.replace('''    pub fn check(&mut self, name: &str''', '''    fn open(&mut self, id: usize, import: impl FnOnce() -> Import) {
        if !self.imports.contains_key(&id) {
            self.imports.insert(id, import());
            self.last_id = id;
        }
        self.current = Current::Id(id);
    }

    pub fn check(&mut self, name: &str''', 1)
open(F, 'w').write(s)
