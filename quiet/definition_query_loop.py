import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'definition.rs'
rep(F, '''    let captures = matches.into_iter().flat_map(|m| {
        m.captures
            .iter()
            .filter(|capture| all || capture.node.start_position() <= trigger_point)
    });
    for capture in captures {
        let name = &capture_names[capture.index as usize];
        let err = definitions.check(name, capture, text);
        if err.is_none() {
            break;
        }
    }
    let root = tree.root_node().end_position();
    definitions.fix_end(root);
''', '''    'all: for m in matches {
        for capture in m.captures {
            let wanted = all || capture.node.start_position() <= trigger_point;
            if !wanted {
                continue;
            }
            if definitions
                .check(capture_names[capture.index as usize], capture, text)
                .is_none()
            {
                break 'all;
            }
        }
    }
    definitions.fix_end(closest_node.end_position());
''')
rep(F, '''        let mut ids = vec![];
        for id in self.definitions {
            id.collect(&mut ids);
        }
        // unfinished tags bind no name yet
        ids.retain(|id| !id.name.is_empty());
        ids
''', '''        let mut collected = vec![];
        self.definitions
            .into_iter()
            .for_each(|definition| definition.collect(&mut collected));
        // unfinished tags bind no name yet
        collected
            .into_iter()
            .filter(|id| !id.name.is_empty())
            .collect()
''')
rep(F, '''                for mut key in keys.into_iter().enumerate() {
                    if key.0 == 0 {
                        key.1.identifier_type = IdentifierType::MacroName;
                    } else {
                        key.1.identifier_type = IdentifierType::MacroParameter;
                    }
                    ids.push(key.1);
                }
''', '''                for (index, mut key) in keys.into_iter().enumerate() {
                    key.identifier_type = match index {
                        0 => IdentifierType::MacroName,
                        _ => IdentifierType::MacroParameter,
                    };
                    ids.push(key);
                }
''')
