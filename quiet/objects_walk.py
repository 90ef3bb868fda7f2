import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'objects.rs'
s = open(F).read()
a = s.index("    'loop1: for m in matches {")
b = s.index("fn text_of<'a>(")
s = s[:a] + '''    'walk: for found in matches {
        for capture in found.captures.iter() {
            let name = capture_names[capture.index as usize];
            let begin = capture.node.start_position();
            if all || begin <= trigger_point {
                if objects.check(name, capture, text).is_none() {
                    break 'walk;
                }
                continue;
            }
            if name == "expr" || objects.is_filter() {
                break 'walk;
            }
            if !continued {
                if !objects.is_hover(trigger_point) {
                    break 'walk;
                }
                continued = true;
                my_id = objects.objects.len().saturating_sub(1);
                my_expr = objects.expr;
                continue;
            }
            let Some(action) = objects.check(name, capture, text) else {
                break 'walk;
            };
            if action == ObjectAction::Expression
                || action == ObjectAction::NewObject
                || action == ObjectAction::Invalid
            {
                objects.go_back(my_id, my_expr);
                break 'walk;
            }
        }
    }
    objects
}

''' + s[b:]
s = s.replace('''    pub fn is_filter(&self) -> bool {''', '''    fn go_back(&mut self, index: usize, expr: (Point, Point, ExpressionRange)) {
        if let Some(object) = self.objects.get_mut(index) {
            object.capture_first = true;
            self.ident = object.location;
        }
        if index != self.objects.len().saturating_sub(1) {
            self.objects.pop();
            self.expr = expr;
        }
    }

    pub fn is_filter(&self) -> bool {''', 1)
open(F, 'w').write(s)
rep(F, '''                let mut cursor = capture.node.walk();
                cursor.goto_first_child();
                let first = cursor.node();
                cursor.reset(capture.node);
                cursor.goto_last_child();
                let last = cursor.node();
                let expr = ExpressionRange {
                    begin: (first.start_position(), first.end_position()),
                    end: (last.start_position(), last.end_position()),
                };
                self.expr = (start, end, expr);
''', '''                let mut walker = capture.node.walk();
                walker.goto_first_child();
                let begin = walker.node();
                let begin = (begin.start_position(), begin.end_position());
                walker.reset(capture.node);
                walker.goto_last_child();
                let last = walker.node();
                let finish = (last.start_position(), last.end_position());
                self.expr = (start, end, ExpressionRange { begin, end: finish });
''')
