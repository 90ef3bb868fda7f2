import sys; sys.path.insert(0, '/verif/quiet')
from q import *
F = Q + 'objects.rs'
rep(F, '''        let autoclose = self.should_autoclose();
        if self.in_pipe(trigger_point) {
            return Some((CompletionType::Filter, autoclose));
        } else if self.in_expr(trigger_point) {
            if trigger_point == self.expr.2.begin.1 && trigger_point == self.expr.2.end.0 {
                return Some((CompletionType::Identifier, autoclose));
            }
            if trigger_point > self.ident.1 {
                return Some((CompletionType::Identifier, autoclose));
            }
            if let Some(ident_value) = self.is_ident(trigger_point) {
                // if let Some(ident2) = self.objects.last().map(|last| last) {
                let identifier = Identifier::new(&ident_value, self.ident.0, self.ident.1);
                let start = completion_start(trigger_point, &identifier);
                // let range = to_range((self.ident.0, self.ident.1));
                let range = self.full_range();
                return Some((
                    CompletionType::IncompleteIdentifier {
                        name: start?.to_string(),
                        range,
                    },
                    autoclose,
                ));
                // }
            }
            return Some((CompletionType::Identifier, autoclose));
        } else if self.is_test(trigger_point) {
            return Some((CompletionType::Test, false));
        }
        None
    }
''', '''        let closes = self.should_autoclose();
        let kind = match (self.in_pipe(trigger_point), self.in_expr(trigger_point)) {
            (true, _) => CompletionType::Filter,
            (false, true) => self.in_expression(trigger_point)?,
            (false, false) => {
                let tested = self.is_test(trigger_point);
                return tested.then_some((CompletionType::Test, false));
            }
        };
        Some((kind, closes))
    }

    /// what is completed between the brackets of an expression
    fn in_expression(&self, place: Point) -> Option<CompletionType> {
        let (.., borders) = &self.expr;
        let empty = borders.begin.1 == place && borders.end.0 == place;
        if empty || self.ident.1 < place {
            return Some(CompletionType::Identifier);
        }
        let Some(typed) = self.is_ident(place) else {
            return Some(CompletionType::Identifier);
        };
        let (start, end) = self.ident;
        let identifier = Identifier::new(&typed, start, end);
        let name = completion_start(place, &identifier)?.to_string();
        Some(CompletionType::IncompleteIdentifier {
            range: self.full_range(),
            name,
        })
    }
''')
rep(F, '''        if trigger_point >= self.ident.0 && trigger_point <= self.ident.1 {
            self.objects.last().map(|last| last.name.to_string())
        } else {
            None
        }
''', '''        let (start, end) = self.ident;
        if !(start..=end).contains(&trigger_point) {
            return None;
        }
        Some(self.objects.last()?.name.clone())
''')
rep(F, '''        let full_range = self.full_range();
        trigger_point >= self.ident.0 && trigger_point <= self.ident.1
            || to_range2(full_range, trigger_point)
''', '''        let (start, end) = self.ident;
        (start..=end).contains(&trigger_point) || to_range2(self.full_range(), trigger_point)
''')
rep(F, '''        let in_expr = trigger_point > self.expr.0 && trigger_point < self.expr.1;
        let after_ident = trigger_point > self.ident.0;
        let no_ident = self.expr.2.begin.1 == self.expr.2.end.0;
        if !in_expr {
            return false;
        }
        in_expr && after_ident || no_ident
''', '''        let (start, end, borders) = &self.expr;
        if *start < trigger_point && trigger_point < *end {
            borders.begin.1 == borders.end.0 || self.ident.0 < trigger_point
        } else {
            false
        }
''')
rep(F, '''        self.objects
            .last()
            .map_or(Range::default(), |item| item.full_range())
''', '''        match self.objects.as_slice() {
            [.., item] => item.full_range(),
            [] => Range::default(),
        }
''')
rep(F, '''        let last = self.fields.last().map_or(self.location.1, |v| v.1 .1);
        last
''', '''        match self.fields.last() {
            Some((_, (_, end))) => *end,
            None => self.location.1,
        }
''')
