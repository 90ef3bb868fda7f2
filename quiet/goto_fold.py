import sys; sys.path.insert(0, '/verif/quiet')
from q import *
rep(L, '''                    let max = variables
                        .iter()
                        .filter(|item| {
                            item.name == ident && item.start <= point && point <= item.scope_ends.1
                        })
                        .max()?;
''', '''                    let mut max: Option<&Identifier> = None;
                    for item in variables {
                        if item.name != ident || item.start > point || item.scope_ends.1 < point {
                            continue;
                        }
                        max = match max {
                            Some(best) if item < best => Some(best),
                            _ => Some(item),
                        };
                    }
                    let max = max?;
''')
