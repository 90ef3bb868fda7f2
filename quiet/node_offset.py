import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = 'jinja-lsp-nodejs/src/lib.rs'
rep(F, '''    mut position: JsPosition,
  ) -> Option<JsHover> {
    position.line = position.line.checked_sub(line)?;
''', '''    mut position: JsPosition,
  ) -> Option<JsHover> {
    if position.line < line {
      return None;
    }
    position.line -= line;
''')
rep(F, '''    position.line = position.line.checked_sub(line)?;
    let original_uri = filename.to_string();
    let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
    let position = Position::new(position.line, position.character);
''', '''    if line > position.line {
      return None;
    }
    position.line = position.line.saturating_sub(line);
    let original_uri = filename.to_string();
    let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
    let position = Position::new(position.line, position.character);
''')
rep(F, '''  pub fn goto_definition(
    &self,
    id: u32,
    filename: String,
    line: u32,
    mut position: JsPosition,
  ) -> Option<Vec<JsLocation>> {
    position.line = position.line.checked_sub(line)?;
''', '''  pub fn goto_definition(
    &self,
    id: u32,
    filename: String,
    offset: u32,
    position: JsPosition,
  ) -> Option<Vec<JsLocation>> {
    let line = offset;
    let position = match position.line.checked_sub(line) {
      Some(row) => JsPosition {
        line: row,
        character: position.character,
      },
      None => return None,
    };
''')
rep(F, '''        if uri2.contains(&filename) {
          if let Ok(uri) = Url::parse(&filename) {
            location.uri = uri;
          }
          location.range.start.line += line;
          location.range.end.line += line;
          definitions.push(JsLocation::from(&location));
        }
''', '''        if uri2.contains(&filename) {
          location.range = moved(location.range, line);
          location.uri = Url::parse(&filename).unwrap_or(location.uri);
          definitions.push(JsLocation::from(&location));
        }
''')
rep(F, '''        for mut location in locations {
          let uri2 = location.uri.to_string();
          if uri2.contains("temp") {
            location.range.start.line += line;
            location.range.end.line += line;
            let mut js_location = JsLocation::from(&location);
            js_location.is_backend = true;
            definitions.push(js_location);
          }
        }
''', '''        definitions.extend(
          locations
            .into_iter()
            .filter(|location| location.uri.to_string().contains("temp"))
            .map(|location| JsLocation {
              is_backend: true,
              range: JsRange::from(&moved(location.range, line)),
              ..JsLocation::from(&location)
            }),
        );
''')
rep(F, '''#[napi]
pub fn basic(''', '''fn moved(range: Range, by: u32) -> Range {
  let Range { start, end } = range;
  Range::new(
    Position::new(start.line + by, start.character),
    Position::new(end.line + by, end.character),
  )
}

#[napi]
pub fn basic(''')
