import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'objects.rs'
s = open(F).read()
a = s.index("fn text_of<'a>(")
b = s.index('#[derive(PartialEq, Debug)]\npub enum CompletionType')
s = s[:a] + '''/// a captured name and what is around it
struct Word<'a, 'b> {
    node: Node<'b>,
    source: &'a str,
}

impl<'a, 'b> Word<'a, 'b> {
    fn of(node: Node<'b>, source: &'a str) -> Self {
        Self { node, source }
    }

    fn text(&self) -> &'a str {
        self.node.utf8_text(self.source.as_bytes()).unwrap_or_default()
    }

    fn before(&self) -> Option<Word<'a, 'b>> {
        self.node.prev_sibling().map(|node| Word::of(node, self.source))
    }

    fn after(&self) -> Option<Word<'a, 'b>> {
        self.node.next_sibling().map(|node| Word::of(node, self.source))
    }

    /// the keyword of the tag that contains it
    fn keyword(&self) -> Option<&'a str> {
        let tag = self.node.parent()?;
        let first = Word::of(tag.child(1)?, self.source);
        (first.node.kind() == "keyword").then(|| first.text())
    }

    /// words like "ignore missing" and "recursive", which are no variables
    fn is_modifier(&self) -> bool {
        let before = self.before();
        let before_text = before.as_ref().map(|word| word.text()).unwrap_or_default();
        let after = self.after();
        let after_text = after.as_ref().map_or("", |word| word.text());
        match (self.text(), before_text, after_text) {
            ("context", "without", _) | ("without", _, "context") => true,
            ("context", "with", _) => {
                let first = before.and_then(|word| word.before());
                !first.map_or(true, |word| word.node.kind() == "statement_begin")
            }
            ("ignore", _, "missing") | ("missing", "ignore", _) => true,
            ("scoped", ..) | ("required", ..) => {
                matches!(self.keyword(), Some("block"))
                    && before.map(|word| word.node.kind()) == Some("identifier")
            }
            ("recursive", text, _) => {
                if self.keyword() != Some("for") {
                    return false;
                }
                let (Some(before), Some(after)) = (before, after) else {
                    return false;
                };
                if after.node.kind() != "statement_end" {
                    return false;
                }
                let text = text.trim_end();
                if before.node.kind() == "identifier" {
                    return text != "not";
                }
                text.ends_with([')', ']'])
            }
            _ => false,
        }
    }

    /// names of keyword arguments, like "a" in "f(a=1)"
    fn is_argument_name(&self) -> bool {
        let Some(after) = self.after() else {
            return false;
        };
        let assigns = after
            .text()
            .strip_prefix('=')
            .is_some_and(|rest| !rest.starts_with('='));
        if !assigns {
            return false;
        }
        let before = self.before().map_or("", |word| word.text()).trim_end();
        let last = before.chars().last();
        match self.keyword() {
            Some("macro") => false,
            Some("set" | "with") => last == Some('('),
            _ => last.is_some_and(|last| last == '(' || last == ','),
        }
    }
}

fn text_of<'a>(node: Option<Node<'_>>, source: &'a str) -> &'a str {
    node.map_or("", |node| Word::of(node, source).text())
}

''' + s[b:]
s = s.replace('''                if is_modifier(capture.node, source) || is_argument_name(capture.node, source) {
''', '''                let word = Word::of(capture.node, source);
                if word.is_modifier() || word.is_argument_name() {
''')
s = s.replace('''                } else if let Some(before) = content.trim_end().strip_suffix('|') {
                    // closing brackets in front of it are part of the same operator
                    let lines = before.matches('\\n').count();
                    let line = before.rsplit('\\n').next().map_or(0, str::len);
                    let column = if lines > 0 { line } else { start.column + line };
                    self.pipe = (Point::new(start.row + lines, column), end);
                }
''', '''                } else if let Some(before) = content.trim_end().strip_suffix('|') {
                    // closing brackets in front of it are part of the same operator
                    let mut place = start;
                    for letter in before.chars() {
                        if letter == '\\n' {
                            place = Point::new(place.row + 1, 0);
                        } else {
                            place.column += letter.len_utf8();
                        }
                    }
                    self.pipe = (place, end);
                }
''')
open(F, 'w').write(s)
