import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = 'jinja-lsp-nodejs/src/lib.rs'
rep(F, '''    let hint = hint.unwrap_or("temp".to_string());
    self.lsp_files.variables.remove(&hint);
    self.actions.remove(&hint);
    self.action_objects.remove(&hint);
''', '''    let hint = match hint {
      Some(h) => h,
      None => String::from("temp"),
    };
    self.action_objects.remove(&hint);
    self.actions.remove(&hint);
    let _ = self.lsp_files.variables.remove(hint.as_str());
''')
rep(F, '''    let hint = hint.unwrap_or("temp".to_string());
    if let Some(actions) = actions {
      let mut identifiers = vec![];
      let mut action_objects = vec![];
      for action in &actions {
        let mut identifier = Identifier::new(&action.name, Point::new(0, 0), Point::new(0, 0));
        identifier.identifier_type = IdentifierType::BackendVariable;
        identifiers.push(identifier);
        let action = ActionObject::from(action);
        action_objects.push(action);
      }
      self.action_objects.insert(hint.to_string(), action_objects);
      self
        .lsp_files
        .variables
        .insert(hint.to_string(), identifiers);
      self.actions.insert(hint.to_string(), actions);
    }
  }
''', '''    let Some(actions) = actions else {
      return;
    };
    let name = hint.unwrap_or_else(|| "temp".to_owned());
    let action_objects: Vec<ActionObject> = actions.iter().map(ActionObject::from).collect();
    let identifiers = actions.iter().map(backend_variable).collect::<Vec<_>>();
    self.action_objects.insert(name.clone(), action_objects);
    self.lsp_files.variables.insert(name.clone(), identifiers);
    self.actions.insert(name, actions);
  }
''')
rep(F, '''#[napi]
pub fn basic(''', '''fn backend_variable(action: &Action) -> Identifier {
  let zero = Point::new(0, 0);
  let mut identifier = Identifier::new(&action.name, zero, zero);
  identifier.identifier_type = IdentifierType::BackendVariable;
  identifier
}

fn shifted(mut position: JsPosition, line: u32) -> JsPosition {
  position.line += line;
  position
}

#[napi]
pub fn basic(''')
rep(F, '''                  let mut start = JsPosition::from(obj.location.0);
                  let mut end = JsPosition::from(obj.last_field_end());
                  start.line += line;
                  end.line += line;
''', '''                  let start = shifted(JsPosition::from(obj.location.0), line);
                  let end = shifted(obj.last_field_end().into(), line);
''')
rep(F, '''    let mut converted = vec![];
    for variable in variables {
      let mut variable2 = JsIdentifier::from(variable);
      variable2.start.line += line;
      variable2.end.line += line;
      converted.push(variable2);
    }
    Some(converted)
''', '''    Some(
      variables
        .iter()
        .map(|variable| {
          let mut converted = JsIdentifier::from(variable);
          converted.end.line += line;
          converted.start.line += line;
          converted
        })
        .collect(),
    )
''')
rep(F, '''    let mut space_before = String::new();
    for _ in 0..col {
      space_before.push(' ');
    }
    content = format!("{space_before}{content}");
''', '''    content = format!("{}{content}", " ".repeat(col as usize));
''')
