import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(CF).read()
a = s.index('    let configs = ["pyproject.toml"')
b = s.index('impl JinjaConfig {')
s = s[:a] + '''    const NAMES: [&str; 3] = ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"];
    NAMES.iter().find_map(|name| from_file(name))
}

fn from_file(name: &str) -> Option<JinjaConfig> {
    let contents = read_to_string(name).ok()?;
    if contents.is_empty() {
        return None;
    }
    let mut found = toml::from_str::<ExternalConfig>(&contents).ok()?.jinja_lsp;
    found.user_defined = true;
    Some(found)
}

''' + s[b:]
s = s.replace('''        match path.extension()?.to_str() {
            Some(e) => match e {
                "html" | "jinja" | "j2" => Some(LangType::Template),
                "rs" | "py" => Some(LangType::Backend),
                _ => None,
            },
            None => None,
        }
''', '''        let extension = path.extension()?.to_str()?;
        if ["html", "jinja", "j2"].contains(&extension) {
            return Some(LangType::Template);
        }
        if extension == "rs" || extension == "py" {
            return Some(LangType::Backend);
        }
        None
''')
s = s.replace('''    let mut all = vec![config.templates.to_string_lossy().to_string()];
    let mut backend = config.backend.clone();
    all.append(&mut backend);
''', '''    let templates = config.templates.to_string_lossy().into_owned();
    let all = std::iter::once(&templates).chain(config.backend.iter());
''')
s = s.replace('''            if metadata.is_file() {
                let path = &entry.path();
                let ext = config.file_ext(path);
                if let Some(ext) = ext {
                    lsp_files.read_file(path, ext);
                }
            }
''', '''            if !metadata.is_file() {
                continue;
            }
            let path = entry.path();
            if let Some(lang_type) = config.file_ext(&path) {
                lsp_files.read_file(&path, lang_type);
            }
''')
open(CF, 'w').write(s)
