import sys; sys.path.insert(0, '/verif/quiet')
from q import *
rep(L, '''            .filter(|variable| variable.identifier_type != IdentifierType::TemplateBlock)
            .filter(|variable| {
                let bigger = hover.start >= variable.end;
                let in_scope = hover.start <= variable.scope_ends.1;
                let same_name = hover.name == variable.name;
                bigger && in_scope && same_name
            })
            .max();
        if let Some(this_file) = this_file {
            return Some(this_file.identifier_type.clone());
        }
        for file in &self.variables {
            if file.0 == &uri.to_string() {
                continue;
            }
            let variables = file
                .1
                .iter()
                .filter(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
            if variables.count() > 0 {
                return Some(IdentifierType::BackendVariable);
            }
        }
        None
    }
''', '''            .filter(|variable| Self::visible(variable, &hover))
            .max();
        match this_file {
            Some(found) => Some(found.identifier_type.clone()),
            None => {
                let own = uri.to_string();
                let elsewhere = self
                    .variables
                    .iter()
                    .filter(|(name, _)| **name != own)
                    .any(|(_, list)| {
                        list.iter().any(|item| {
                            item.name.split('.').next().unwrap_or(&item.name) == hover.name
                        })
                    });
                elsewhere.then_some(IdentifierType::BackendVariable)
            }
        }
    }

    fn visible(variable: &Identifier, hover: &Identifier) -> bool {
        if variable.identifier_type == IdentifierType::TemplateBlock {
            return false;
        }
        if variable.name != hover.name {
            return false;
        }
        variable.end <= hover.start && hover.start <= variable.scope_ends.1
    }
''')
