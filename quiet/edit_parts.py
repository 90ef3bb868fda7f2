import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(IE).read()
a = s.index('        let start = range.start;\n        let end = range.end;')
b = s.index('pub fn to_position2')
s = s[:a] + '''        let start_byte = self.to_byte(range.start);
        let old_end_byte = self.to_byte(range.end);
        let start_position = self.to_point(range.start);
        let lines = text.bytes().filter(|b| *b == b'\\n').count();
        let new_end_position = if let Some(last) = text.rfind('\\n') {
            Point {
                row: start_position.row + lines,
                column: text.len() - (last + 1),
            }
        } else {
            Point {
                row: start_position.row,
                column: start_position.column + text.len(),
            }
        };
        InputEdit {
            new_end_byte: start_byte + text.len(),
            start_byte,
            old_end_byte,
            start_position,
            old_end_position: self.to_point(range.end),
            new_end_position,
        }
    }
}

''' + s[b:]
open(IE, 'w').write(s)
