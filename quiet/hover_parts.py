import sys; sys.path.insert(0, '/verif/quiet')
from q import *
rep(L, '''            let object = objects.get_last_id()?;
            if object.is_filter {
                return Some((Identifier::from(object), CompletionType::Filter));
            } else if object.is_test {
                return Some((Identifier::from(object), CompletionType::Test));
            } else {
                return Some((Identifier::from(object), CompletionType::Identifier));
            }
''', '''            let object = objects.get_last_id()?;
            let kind = match (object.is_filter, object.is_test) {
                (true, _) => CompletionType::Filter,
                (false, true) => CompletionType::Test,
                (false, false) => CompletionType::Identifier,
            };
            return Some((object.into(), kind));
''')
s = open(L).read()
a = s.index('        let this_file = self.variables.get(uri.as_str())?;\n        let this_file = this_file\n            .iter()\n            .filter(|variable| variable.identifier_type != IdentifierType::TemplateBlock)')
b = s.index('    pub fn document_symbols(')
s = s[:a] + '''        let mut best: Option<&Identifier> = None;
        for variable in self.variables.get(uri.as_str())? {
            if variable.identifier_type == IdentifierType::TemplateBlock
                || variable.name != hover.name
                || variable.end > hover.start
                || variable.scope_ends.1 < hover.start
            {
                continue;
            }
            if best.map_or(true, |best| variable >= best) {
                best = Some(variable);
            }
        }
        if let Some(best) = best {
            return Some(best.identifier_type.clone());
        }
        let elsewhere = self
            .variables
            .iter()
            .filter(|(file, _)| file.as_str() != uri.as_str())
            .flat_map(|(_, variables)| variables.iter())
            .any(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
        elsewhere.then_some(IdentifierType::BackendVariable)
    }

''' + s[b:]
open(L, 'w').write(s)
