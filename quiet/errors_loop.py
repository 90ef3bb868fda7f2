import sys; sys.path.insert(0, '/verif/quiet')
from q import *
rep(H, '''                let located = this_file
                    .iter()
                    .filter(|variable| {
                        variable.name == object.name
                            && variable.identifier_type != IdentifierType::TemplateBlock
                    })
                    .filter(|variable| {
                        exist = true;
                        let bigger = object.location.1 >= variable.start;
                        let global = variable.scope_ends.1 == Point::default();
                        let in_scope = object.location.0 < variable.scope_ends.1;
                        if bigger && global {
                            true
                        } else {
                            bigger && in_scope
                        }
                    });
                let empty = located.count() == 0;
''', '''                let mut empty = true;
                for variable in this_file {
                    if variable.identifier_type == IdentifierType::TemplateBlock {
                        continue;
                    }
                    if variable.name != object.name {
                        continue;
                    }
                    exist = true;
                    let global = variable.scope_ends.1 == Point::default();
                    if object.location.1 >= variable.start
                        && (global || object.location.0 < variable.scope_ends.1)
                    {
                        empty = false;
                    }
                }
''')
rep(H, '''                    for file in variables {
                        let temp = file
                            .1
                            .iter()
                            .filter(|variable| variable.name == object.name);
                        if temp.count() != 0 {
                            err_type = JinjaDiagnostic::DefinedSomewhere;
                            to_warn = true;
                            break;
                        }
                    }
''', '''                    let somewhere = variables
                        .values()
                        .flatten()
                        .any(|variable| variable.name == object.name);
                    if somewhere {
                        err_type = JinjaDiagnostic::DefinedSomewhere;
                    }
''')
