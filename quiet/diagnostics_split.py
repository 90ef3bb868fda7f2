import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(DG).read()
a = s.index("                    let mut code_actions = HashMap::new();")
b = s.index("                    let _ = lsp_channel\n")
s = s[:a] + '''                    let mut code_actions = HashMap::with_capacity(all_errors.len());
                    for (name, errors) in all_errors {
                        let missing: Vec<Identifier> = errors
                            .iter()
                            .filter(|(kind, _)| matches!(kind, JinjaDiagnostic::TemplateNotFound))
                            .map(|(_, identifier)| identifier.clone())
                            .collect();
                        let shown = errors.iter().map(shown).collect();
                        match Url::parse(&name) {
                            Ok(uri) => client.publish_diagnostics(uri, shown, None).await,
                            Err(_) => {}
                        }
                        code_actions.insert(name, missing);
                    }
''' + s[b:]
s = s.replace('''#[derive(Debug)]
pub enum DiagnosticMessage {''', '''fn shown((kind, identifier): &(JinjaDiagnostic, Identifier)) -> Diagnostic {
    create_diagnostic(identifier, kind.severity(), kind.to_string())
}

#[derive(Debug)]
pub enum DiagnosticMessage {''')
s = s.replace('lsp_types::{MessageType, Url}', 'lsp_types::{Diagnostic, MessageType, Url}')
open(DG, 'w').write(s)
