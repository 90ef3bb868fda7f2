import sys; sys.path.insert(0, '/verif/quiet')
from q import *
rep(CH, '''                    if let Some(definition) = lsp_data.goto_definition(params) {
                        let _ = sender.send(Some(definition));
                    }
''', '''                    let answer = lsp_data.goto_definition(params);
                    if answer.is_some() {
                        let _ = sender.send(answer);
                    }
''')
rep(CH, '''                    let param = DidSaveTextDocumentParams {
                        text_document: TextDocumentIdentifier::new(
                            params.text_document.uri.to_owned(),
                        ),
                        text: None,
                    };
                    if let Some(code_action) = lsp_data.code_action(params) {
                        if let Some(code_actions) =
                            lsp_data.process_code_actions(code_action, param)
                        {
                            let _ = sender.send(Some(code_actions));
                        }
                    }
''', '''                    let text_document =
                        TextDocumentIdentifier::new(params.text_document.uri.clone());
                    let offers = lsp_data.code_action(params).and_then(|action| {
                        lsp_data.process_code_actions(
                            action,
                            DidSaveTextDocumentParams {
                                text_document,
                                text: None,
                            },
                        )
                    });
                    if let Some(offers) = offers {
                        let _ = sender.send(Some(offers));
                    }
''')
rep(CH, '''                    if let Some(client_info) = params.client_info {
                        if client_info.name == "Visual Studio Code" {
                            lsp_data.is_vscode = true;
                        }
                    }
''', '''                    let vscode = params
                        .client_info
                        .as_ref()
                        .is_some_and(|info| info.name == "Visual Studio Code");
                    if vscode {
                        lsp_data.is_vscode = true;
                    }
''')
rep(CH, '''                        .initialization_options
                        .map(serde_json::from_value)
                        .map(|res| res.ok())
                        .and_then(|c| {
                            let mut config: JinjaConfig = c?;
                            config.user_defined = true;
                            Some(config)
                        })
                        .unwrap_or(search_config().unwrap_or(config));
''', '''                        .initialization_options
                        .and_then(|options| serde_json::from_value::<JinjaConfig>(options).ok())
                        .map(|mut given| {
                            given.user_defined = true;
                            given
                        })
                        .or_else(search_config)
                        .unwrap_or(config);
''')
rep(CH, '''                            Ok(errors) => {
                                let _ =
                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                let vscode = lsp_data.is_vscode;
                                lsp_data = errors.1;
                                lsp_data.is_vscode = vscode;
                                lsp_data.config = config.clone();
                                lsp_data.main_channel = Some(lsp_channel.clone());
                                let _ = sender.send(true);
                            }
''', '''                            Ok((problems, mut scanned)) => {
                                scanned.is_vscode = lsp_data.is_vscode;
                                scanned.config = config.clone();
                                scanned.main_channel = Some(lsp_channel.clone());
                                lsp_data = scanned;
                                let _ =
                                    diagnostics_channel.send(DiagnosticMessage::Errors(problems));
                                let _ = sender.send(true);
                            }
''')
rep(CH, '''                    if let Ok(c) = serde_json::from_value(params.settings) {
                        config = c;
                        config.user_defined = true;
                    }

                    if !config.user_defined {
                        continue;
                    }
                    let lsp_channel = lsp_channel.clone();
                    tokio::spawn(async move {
                        let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
                    });
''', '''                    match serde_json::from_value::<JinjaConfig>(params.settings) {
                        Ok(mut given) => {
                            given.user_defined = true;
                            config = given;
                        }
                        Err(_) => (),
                    }
                    if config.user_defined {
                        let own_queue = lsp_channel.clone();
                        tokio::spawn(async move {
                            let _ = own_queue.send(LspMessage::Initialized(sender)).await;
                        });
                    }
''')
