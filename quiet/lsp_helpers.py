import sys; sys.path.insert(0, '/verif/quiet')
from q import *
s = open(CH).read()
for l in ('filters', 'template_tests'):
    o = '''                                let completions = %s.clone();
                                let mut ret = Vec::with_capacity(completions.len());
                                for item in completions.into_iter() {
                                    ret.push(CompletionItem {
                                        label: item.name,
                                        kind: Some(CompletionItemKind::TEXT),
                                        documentation: Some(Documentation::MarkupContent(
                                            MarkupContent {
                                                kind: MarkupKind::Markdown,
                                                value: item.desc.to_string(),
                                            },
                                        )),
                                        ..Default::default()
                                    });
                                }
                                items = Some(CompletionResponse::Array(ret));
''' % l
    assert o in s
    s = s.replace(o, '''                                items = Some(documented(
                                    %s.iter().map(|entry| (&entry.name, &entry.desc)),
                                ));
''' % l)
o = '''                        if hover.1 == CompletionType::Filter {'''
a = s.index(o)
b = s.index('''                    let _ = sender.send(res);''')
s = s[:a] + '''                        let page = match hover.1 {
                            CompletionType::Filter => page_of(
                                filters.iter().map(|entry| (&entry.name, &entry.desc)),
                                &hover.0.name,
                            ),
                            CompletionType::Test => page_of(
                                template_tests.iter().map(|entry| (&entry.name, &entry.desc)),
                                &hover.0.name,
                            ),
                            _ => lsp_data
                                .data_type(uri, hover.0)
                                .map(|kind| kind.completion_detail().to_owned()),
                        };
                        res = page.map(markdown);
                    }
''' + s[b:]
s = s.replace('''pub enum LspMessage {''', '''fn documented<'a>(entries: impl Iterator<Item = (&'a String, &'a String)>) -> CompletionResponse {
    CompletionResponse::Array(
        entries
            .map(|(name, page)| CompletionItem {
                label: name.clone(),
                kind: Some(CompletionItemKind::TEXT),
                documentation: Some(Documentation::MarkupContent(MarkupContent {
                    kind: MarkupKind::Markdown,
                    value: page.clone(),
                })),
                ..Default::default()
            })
            .collect(),
    )
}

fn page_of<'a>(
    mut entries: impl Iterator<Item = (&'a String, &'a String)>,
    name: &str,
) -> Option<String> {
    entries
        .find(|entry| entry.0 == name)
        .map(|entry| entry.1.clone())
}

fn markdown(value: String) -> Hover {
    Hover {
        contents: HoverContents::Markup(MarkupContent {
            kind: MarkupKind::Markdown,
            value,
        }),
        range: None,
    }
}

pub enum LspMessage {''', 1)
open(CH, 'w').write(s)
