import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(H).read()
a = s.index('    let mut diagnostics = vec![];')
b = s.index('pub fn create_diagnostic(')
s = s[:a] + '''    let recorded = match lang_type {
        LangType::Template => {
            let origin = Point::new(0, 0);
            let objects =
                objects_query(&queries.jinja_objects, root, origin, source, true).show();
            let this_file = variables.get(file_name)?;
            let mut diagnostics: Vec<(JinjaDiagnostic, Identifier)> = objects
                .iter()
                .filter(|object| !object.is_filter && !object.is_test)
                .filter_map(|object| {
                    let kind = undefined(object, this_file, variables)?;
                    (!ignore_globals).then(|| (kind, Identifier::from(object)))
                })
                .collect();
            let mut imports = vec![];
            templates_query(&queries.jinja_imports, root, origin, source, true)
                .collect(&mut imports);
            for import in imports {
                if import.identifier_type == IdentifierType::JinjaTemplate
                    && missing(&templates, &import)
                {
                    diagnostics.push((JinjaDiagnostic::TemplateNotFound, import));
                }
            }
            return Some(diagnostics);
        }
        LangType::Backend => variables.get(file_name)?,
    };
    let mut diagnostics = vec![];
    for template in recorded {
        if template.identifier_type != IdentifierType::JinjaTemplate {
            continue;
        }
        if missing(&templates, template) {
            diagnostics.push((JinjaDiagnostic::TemplateNotFound, template.clone()));
        }
    }
    Some(diagnostics)
}

fn missing(templates: &Path, template: &Identifier) -> bool {
    if template.name.is_empty() {
        return true;
    }
    let path = templates.join(path_items(&template.name));
    std::fs::canonicalize(path).is_err()
}

fn undefined(
    object: &JinjaObject,
    this_file: &[Identifier],
    variables: &HashMap<String, Vec<Identifier>>,
) -> Option<JinjaDiagnostic> {
    let mut known = false;
    for variable in this_file {
        if variable.name != object.name
            || variable.identifier_type == IdentifierType::TemplateBlock
        {
            continue;
        }
        known = true;
        if object.location.1 < variable.start {
            continue;
        }
        let end = variable.scope_ends.1;
        if end == Point::default() || object.location.0 < end {
            return None;
        }
    }
    let elsewhere = !known
        && variables
            .values()
            .any(|file| file.iter().any(|variable| variable.name == object.name));
    if elsewhere {
        Some(JinjaDiagnostic::DefinedSomewhere)
    } else {
        Some(JinjaDiagnostic::Undefined)
    }
}

''' + s[b:]
s = s.replace('path::PathBuf', 'path::{Path, PathBuf}').replace('objects::objects_query,', 'objects::{objects_query, JinjaObject},')
open(H, 'w').write(s)
