import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'objects.rs'
s = open(F).read()
a = s.index('    pub fn build_object(')
b = s.index('    pub fn completion(')
s = s[:a] + '''    pub fn build_object(&mut self, capture: &QueryCapture<'_>, source: &str) -> ObjectAction {
        let node = capture.node;
        let Ok(text) = node.utf8_text(source.as_bytes()) else {
            return ObjectAction::Invalid;
        };
        let place = (node.start_position(), node.end_position());
        if place.0 == self.dot.1 {
            self.new_field(text, place);
            return ObjectAction::Invalid;
        }
        let test = self.follows_is(capture, source);
        let by_keyword = node
            .prev_sibling()
            .filter(|keyword| keyword.kind() == "keyword")
            .is_some_and(|keyword| keyword.utf8_text(source.as_bytes()) == Ok("filter"));
        self.new_object(text, place, test, by_keyword)
    }

    /// fields of values that are no variables are no objects
    fn new_field(&mut self, text: &str, place: (Point, Point)) {
        if self.dot_of != Some(self.ident) {
            return;
        }
        if let Some(owner) = self.objects.last_mut() {
            owner.add_field(text.to_owned(), place.0, place.1);
            self.ident = place;
        }
    }

    fn new_object(
        &mut self,
        text: &str,
        place: (Point, Point),
        test: bool,
        by_keyword: bool,
    ) -> ObjectAction {
        // TODO: in future add those to main library
        let word = VALID_IDENTIFIERS.iter().any(|word| *word == text);
        if word && (!test || text == "not") {
            return ObjectAction::Invalid;
        }
        self.ident = place;
        let filter = by_keyword || (self.is_filter() && self.is_hover(place.0));
        let object = JinjaObject::new(text.to_owned(), place.0, place.1, filter, test);
        self.objects.push(object);
        self.test.2 = false;
        ObjectAction::NewObject
    }

    /// directly behind "is" or "is not"
    fn follows_is(&self, capture: &QueryCapture<'_>, source: &str) -> bool {
        if !self.test.2 {
            return false;
        }
        let Some(mut before) = capture.node.prev_sibling() else {
            return false;
        };
        if let Ok("not") = before.utf8_text(source.as_bytes()) {
            match before.prev_sibling() {
                Some(is) => before = is,
                None => return false,
            }
        }
        self.test.0 == before.start_position()
    }

''' + s[b:]
open(F, 'w').write(s)
