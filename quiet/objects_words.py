import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'objects.rs'
s = open(F).read()
a = s.index("fn text_of<'a>(")
b = s.index('#[derive(PartialEq, Debug)]\npub enum CompletionType')
s = s[:a] + '''fn text_of<'a>(node: Option<Node<'_>>, source: &'a str) -> &'a str {
    match node {
        Some(node) => node.utf8_text(source.as_bytes()).unwrap_or(""),
        None => "",
    }
}

/// the keyword of the tag that contains this node
fn tag_keyword<'a>(node: Node<'_>, source: &'a str) -> &'a str {
    let Some(tag) = node.parent() else {
        return "";
    };
    match tag.child(1) {
        Some(first) if first.kind() == "keyword" => text_of(Some(first), source),
        _ => "",
    }
}

fn closes(text: &str) -> bool {
    [')', ']'].iter().any(|bracket| text.ends_with(*bracket))
}

/// words like "ignore missing" and "recursive", which are no variables
fn is_modifier(node: Node<'_>, source: &str) -> bool {
    let word = text_of(Some(node), source);
    let previous = node.prev_sibling();
    let next = node.next_sibling();
    let previous_text = text_of(previous, source);
    let next_text = text_of(next, source);
    if word == "context" {
        if previous_text == "without" {
            return true;
        }
        if previous_text != "with" {
            return false;
        }
        return match previous.and_then(|with| with.prev_sibling()) {
            Some(first) => first.kind() != "statement_begin",
            None => false,
        };
    }
    if (word == "without" && next_text == "context")
        || (word == "ignore" && next_text == "missing")
        || (word == "missing" && previous_text == "ignore")
    {
        return true;
    }
    let Some(previous) = previous else {
        return false;
    };
    let name = previous.kind() == "identifier";
    match word {
        "scoped" | "required" => name && tag_keyword(node, source) == "block",
        "recursive" => {
            let last = next.is_some_and(|node| node.kind() == "statement_end");
            let text = previous_text.trim_end();
            let value = if name { text != "not" } else { closes(text) };
            last && value && tag_keyword(node, source) == "for"
        }
        _ => false,
    }
}

/// names of keyword arguments, like "a" in "f(a=1)"
fn is_argument_name(node: Node<'_>, source: &str) -> bool {
    let operator = text_of(node.next_sibling(), source);
    let mut signs = operator.chars();
    if signs.next() != Some('=') || signs.next() == Some('=') {
        return false;
    }
    let before = text_of(node.prev_sibling(), source).trim_end();
    let tag = tag_keyword(node, source);
    if tag == "macro" {
        return false;
    }
    let first = before.ends_with('(');
    if tag == "set" || tag == "with" {
        return first;
    }
    first || before.ends_with(',')
}

''' + s[b:]
s = s.replace('''                if is_modifier(capture.node, source) || is_argument_name(capture.node, source) {
                    return Some(ObjectAction::Invalid);
                }
                // in expressions "is" is no keyword
                let is_field = start == self.dot.1;
                if !is_field && capture.node.utf8_text(source.as_bytes()) == Ok("is") {
                    self.test = (start, end, true);
                    return Some(ObjectAction::NewTest);
                }
                return Some(self.build_object(capture, source));
''', '''                let no_variable =
                    is_modifier(capture.node, source) || is_argument_name(capture.node, source);
                let action = if no_variable {
                    ObjectAction::Invalid
                } else if start != self.dot.1 && text_of(Some(capture.node), source) == "is" {
                    // in expressions "is" is no keyword
                    self.test = (start, end, true);
                    ObjectAction::NewTest
                } else {
                    self.build_object(capture, source)
                };
                return Some(action);
''')
s = s.replace('''                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
                if content.starts_with('|') {
                    self.pipe = (start, end);
                } else if let Some(before) = content.trim_end().strip_suffix('|') {
                    // closing brackets in front of it are part of the same operator
                    let lines = before.matches('\\n').count();
                    let line = before.rsplit('\\n').next().map_or(0, str::len);
                    let column = if lines > 0 { line } else { start.column + line };
                    self.pipe = (Point::new(start.row + lines, column), end);
                }
                return Some(ObjectAction::NewFilter);
''', '''                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
                if content.starts_with('|') {
                    self.pipe = (start, end);
                } else if content.trim_end().ends_with('|') {
                    // closing brackets in front of it are part of the same operator
                    let length = content.trim_end().len() - 1;
                    let before = &content[..length];
                    let mut place = start;
                    match before.rfind('\\n') {
                        Some(at) => {
                            place.row += before.bytes().filter(|byte| *byte == b'\\n').count();
                            place.column = before.len() - at - 1;
                        }
                        None => place.column += before.len(),
                    }
                    self.pipe = (place, end);
                }
                return Some(ObjectAction::NewFilter);
''')
open(F, 'w').write(s)
