import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(L).read()
for w in ('FileContent', 'FileWriter'):
    for var in ('doc', 'rope'):
        s = s.replace('''        let mut writter = %s::default();
        let _ = %s.write_to(&mut writter);
        let content = writter.content;
''' % (w, var), '''        let content = text_of(%s);
''' % var)
s = s.replace('''        let mut contents = FileContent::default();
        let _ = doc.write_to(&mut contents);
        let content = contents.content;
''', '''        let content = text_of(doc);
''')
for pad in ('        ', '                '):
    for w in ('FileContent', 'FileWriter'):
        s = s.replace(pad + 'let mut writter = %s::default();\n' % w + pad + 'let _ = doc.write_to(&mut writter);\n', pad + 'let content = text_of(doc);\n')
s = s.replace('&writter.content', '&content')
s = s.replace('''            let mut w = FileContent::default();
            let _ = rope.write_to(&mut w);
            changes.push((w.content, input_edit));
''', '''            changes.push((text_of(rope), input_edit));
''')
s = s.replace('''        let trees = self.trees.get(&lang_type)?;
        let tree = trees.get(&uri)?;
''', '''        let tree = self.tree(lang_type, &uri)?;
''')
s = s.replace('''        let trees = self.trees.get(&lang_type)?;
        let tree = trees.get(uri.as_str())?;
''', '''        let tree = self.tree(lang_type, uri.as_str())?;
''')
s = s.replace('''        let trees = self.trees.get(&ext)?;
        let tree = trees.get(&uri)?;
''', '''        let tree = self.tree(ext, &uri)?;
''')
s = s.replace('''    pub fn add_code_actions(''', '''    fn tree(&self, lang_type: LangType, uri: &str) -> Option<&Tree> {
        self.trees.get(&lang_type).and_then(|trees| trees.get(uri))
    }

    pub fn add_code_actions(''', 1)
s = s.replace('''impl Default for LspFiles {''', '''fn text_of(rope: &Rope) -> String {
    let mut writer = FileContent::default();
    let _ = rope.write_to(&mut writer);
    writer.content
}

impl Default for LspFiles {''', 1)
open(L, 'w').write(s)
