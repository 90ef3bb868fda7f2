import os, json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)
L='jinja-lsp/src/lsp_files.rs'; CH='jinja-lsp/src/channels/lsp.rs'; DI='jinja-lsp/src/channels/diagnostics.rs'; BE='jinja-lsp/src/backend.rs'; CF='jinja-lsp/src/config.rs'
Q='jinja-lsp-queries/src/'; N='jinja-lsp-nodejs/src/lib.rs'
NT='The 13 existing tests exercise only the query functions of jinja-lsp-queries on fixed strings; nothing in jinja-lsp or jinja-lsp-nodejs is tested.'
p('C01','No editor message, file or configuration makes the language server panic',
 'While the server runs, no sequence of editor requests and notifications, no file or document content, no document URI and no configuration makes the message-processing worker, the diagnostics worker or a request handler panic: malformed or out-of-range input yields an empty answer or is ignored, and later requests are still answered.',
 ['inputs','histories','configurations'],'every message sequence, every byte content of a document or workspace file, every position and range (including ones beyond the text), every configuration value',
 NT+' A panic needs an unusual position, URI, file name or text, and it kills the worker task while the process stays alive.',
 [L,CH,DI,CF,Q+'search/',Q+'to_input_edit.rs'],[('bounds and presence checks before every operation that can panic',L+', '+Q+'search/*.rs, '+Q+'to_input_edit.rs')],['worker task of the jinja-lsp process','responses after the message'])
p('C02','The server never deadlocks or stalls itself',
 'Whatever burst and interleaving of editor messages arrives, the message worker and the diagnostics worker always make progress: neither worker waits (directly or through a chain of bounded queues, replies or joins) for itself, for the other worker, or for an answer from the editor, and neither sleeps or blocks its thread on a lock. The workers stop serving only when their input queue is closed.',
 ['schedules','histories'],'every interleaving of handlers, worker, diagnostics worker and timers, and every queue fill level',
 NT+' A stall needs queues filled in a particular interleaving.',
 [CH,DI,BE,L],[('channel topology between handlers, message worker and diagnostics worker',BE+', '+CH+', '+DI)],['responses to later requests'])
p('C03','Every request gets exactly the answer computed for it',
 'Every completion, hover, go-to-definition, code-action, document-symbol and initialize request receives exactly one successful response, and it carries the result that was computed from that request\'s own parameters; an empty response is given only when the computation produced no result (or the worker is gone). A request is never left without a response, never answered with another request\'s result and never with an error.',
 ['histories','schedules'],'every request kind, every number of concurrent requests, every history of earlier messages',
 NT+' The reply path crosses two tasks and a one-shot channel.',
 [BE,CH],[('one-shot reply channel created by the handler, moved into the message and consumed by the worker arm',BE+', '+CH)],['JSON-RPC responses'])
p('C04','Editor messages reach the worker once, unmodified and in arrival order',
 'Every open, change, save, configuration-change and initialized notification and every supported request is handed to the message worker exactly once, with its parameters unmodified, before its handler completes, and the worker applies it with those parameters to the operation of the same kind; none is dropped, duplicated, filtered, delayed into a background task or reordered.',
 ['histories','schedules'],'every sequence of messages and every queue fill level',
 NT,[BE,CH],[('awaited send on the main channel in each handler',BE),('match on the message in the worker loop',CH)],['document symbols and diagnostics after a sequence of edits'])
p('C05','The syntax tree always belongs to the current text of its document',
 'After every open, change or scan of a file, the syntax tree used for that document is a parse of exactly the text held for it: a previous tree is reused for an incremental parse only after the very edit that turns the old text into the new one has been recorded on it, otherwise the text is parsed afresh, and the resulting tree replaces the previous one under the same document and language.',
 ['inputs','histories'],'every document content and every history of opens, edits and rescans',
 NT+' A stale tree shows up only after particular edit histories.',
 [L,Q+'parsers.rs'],[('parse and tree store on open/scan; edit-then-parse on change',L)],['documentSymbol / diagnostics compared with those of a fresh server'],[('trees','syntax tree per language and document',L),('documents','text per document',L)])
p('C06','Every content change is applied, in order, at the position the editor meant',
 'Each change of a change notification is applied to the document text, in the order sent and none skipped: a change without a range replaces the whole text, a change with a range replaces exactly that range, whose line and UTF-16 column are converted to the unit (characters or bytes) that each text operation expects and clamped to the text. The edit description given to the syntax tree describes that same replacement against the text before it.',
 ['inputs','histories'],'every text (including non-ASCII), every range and every batch of changes',
 NT+' Wrong units only show on non-ASCII text, lost changes only in batches.',
 [L,Q+'to_input_edit.rs'],[('position conversion and rope mutation per change',L+', '+Q+'to_input_edit.rs')],['documentSymbol after didChange'])
p('C07','Opening, changing or saving a document always refreshes its diagnostics',
 'Every open, change or save of a known template or backend file leads to its variables being re-extracted from its current text and then to a new diagnostics publication for that document computed from its current text and tree (an empty list clears old ones). A pending refresh is cancelled only when a newer change of the same document schedules another one.',
 ['histories','schedules'],'every sequence of edits over several documents and every timing of the debounce timer',
 NT+' Losing a refresh needs a particular timing or multi-document history.',
 [L,CH],[('debounced refresh scheduled on change',L),('re-extraction and error search on save/open',L+', '+CH)],['textDocument/publishDiagnostics'])
p('C08','Published diagnostics are exactly the computed problems of that document',
 'For every document whose problems were computed, the server publishes to that document\'s own URI one diagnostic per problem with the problem\'s own range, severity and message, nothing else and none missing; and a "create template" offer is kept for exactly the problems that are missing templates, for that same document.',
 ['inputs','histories'],'every set of problems over any number of documents',
 NT,[DI,Q+'lsp_helper.rs',Q+'tree_builder.rs'],[('conversion loop of the diagnostics worker',DI),('create_diagnostic, severity and message tables',Q+'lsp_helper.rs, '+Q+'tree_builder.rs')],['textDocument/publishDiagnostics','textDocument/codeAction'])
p('C09','A definition is used only for its own name and only inside its scope',
 'Go-to-definition, hover, identifier completion and the undefined-variable check consider a definition of the same file only if it is already defined at the cursor (or use) position and its scope has not ended before it, and the first, second and fourth only if its name equals the identifier; block names and template paths are never offered as variables. Among several candidates the greatest in definition order is chosen; another file\'s definition of that name is used only when no candidate of the same file exists, and nothing is looked up when no identifier is there.',
 ['inputs'],'every arrangement of definitions, scopes and cursor positions',
 NT+' The truth depends on the relative order of four positions; a test samples one order.',
 [L,Q+'lsp_helper.rs'],[('visibility filters',L+' goto_definition, data_type, read_variables; '+Q+'lsp_helper.rs search_errors')],['definition, hover, completion, diagnostics'])
p('C10','Each Jinja and backend construct is recognised as the kind of definition it is',
 'Every capture name an extractor acts on is made by the syntax query it is given; for, set, with, macro and block each yield definitions of their own kind for the names they bind (for: key then value; macro: name first, then parameters), and names that are only used there are not definitions; import, include, extends and from strings and the template arguments of render_jinja and get_template calls in backend code yield template references; the backend globals (context!, jinja.add_global/add_filter/add_function, jinja_env.globals/filters, render_template and render keywords) yield backend variables. Each carries the range of its own name, also when other constructs come before it or around it.',
 ['inputs','programs'],'every template and backend source file',
 NT+' The tests compare counts on a few fixed templates, not kinds.',
 [Q+'search/queries.rs',Q+'search/definition.rs',Q+'search/templates.rs',Q+'search/objects.rs',Q+'search/rust_identifiers.rs',Q+'search/rust_template_completion.rs',Q+'search/snippets_completion.rs'],
 [('capture dispatch of each extractor',Q+'search/*.rs check'),('query texts',Q+'search/queries.rs')],['documentSymbol','diagnostics'])
p('C11','Template and backend languages are never mixed up',
 'A file is a template exactly if its extension is html, jinja or j2, a backend file exactly if it is rs or py, and otherwise ignored; its text is parsed with its own language\'s grammar, stored among and looked up from that language\'s trees and searched only with that language\'s queries. When the configured backend language is Python, the backend grammar and every backend query are switched together; otherwise both are Rust.',
 ['inputs','configurations'],'every file name, every configuration',
 NT,[CF,L,Q+'parsers.rs',Q+'search/queries.rs',N],[('extension table',CF),('parser/tree/query selection by language',L+', '+Q+'parsers.rs'),('update_backend pair',CF+', '+N)],['documentSymbol, diagnostics'])
p('C12','The server only reads: no file writes, processes or network',
 'No input makes the server or the Node binding create, modify, rename or delete a file, start a process, load code or open a network connection; it only reads configuration and workspace files. The only file operation it ever proposes to the editor is creating a missing template, and that proposal can never overwrite an existing file.',
 ['inputs','histories','configurations'],'every message and configuration',
 NT+' Absence of an effect on all paths cannot be sampled.',
 [L,CF,CH,DI,N],[('who-may-call rule over the resolved call graph',L+', '+CF),('CreateFile options',L+' process_code_actions')],['file system','workspace edit in code actions'])
p('C13','Only protocol messages reach stdout and nothing ends the process',
 'The protocol stream on standard output is written only by the LSP transport: no path of the server writes anything else to standard output or reads standard input, and no message, file or configuration makes the server terminate or abort the process.',
 ['inputs','histories'],'every message, file and configuration',
 NT,['jinja-lsp/src/main.rs',L,CH,DI,CF,BE],[('transport set up in main; who-may-call rule',"jinja-lsp/src/main.rs")],['stdout of the jinja-lsp process'])
p('C14','Built-in filters and tests are listed once, each with its own documentation',
 'Every built-in filter and every built-in test offered by completion has a unique name and exactly the documentation shipped for that name, every shipped documentation page is offered, and hover over a filter or test shows the documentation of the entry with exactly that name from the same list that completion offers (never a filter\'s page for a test or the reverse).',
 ['inputs'],'every built-in name',
 NT,['jinja-lsp/src/filter/mod.rs','jinja-lsp/src/template_tests/mod.rs',CH,N],[('registration tables','jinja-lsp/src/filter/mod.rs, jinja-lsp/src/template_tests/mod.rs'),('hover and completion lookups',CH+', '+N)],['completion and hover responses'])
p('C15','Everything the server advertises or offers is implemented',
 'Every capability announced in the initialize response has a working handler, every handler that answers requests is announced, document synchronisation is announced in the mode the change handler implements with open and save notifications included, and every command announced or offered in a code action is both announced and executed by the command handler.',
 ['histories','configurations'],'every client that follows the announced capabilities',
 NT,[CH,BE,L],[('ServerCapabilities literal',CH),('LanguageServer implementation',BE),('command names',CH+', '+L)],['initialize response, executeCommand'])
p('C16','A message about one document never changes what is stored for another',
 'Handling an open, change, save or read request for a document creates, changes or removes stored text, syntax trees, variables and create-template offers only under that document\'s own key (read requests change nothing at all); only the full reset replaces everything, and deleting by identifier removes exactly the documents of that identifier from every store.',
 ['histories'],'every interleaving of messages over any number of documents',
 NT,[L,DI,CH,N],[('map updates keyed by the request URI',L)],['documentSymbol of the other document'])
p('C17','Node binding: document offset is subtracted on input and added on output, once',
 'In every operation of the Node binding that takes a line offset, the cursor line has the offset subtracted exactly once before any lookup and every returned position has it added exactly once to both its start and its end line; columns are left alone.',
 ['inputs'],'every offset and position',
 NT,[N],[('offset arithmetic in add_one, get_variables, hover, complete, goto_definition',N)],['values returned to JavaScript'])
p('C18','Positions keep their meaning through every conversion',
 'Whenever a position or range is converted between the editor, syntax-tree, extractor and Node representations, line stays line, column stays column, start stays start and end stays end, and every reported range runs from the start to the end of one and the same item.',
 ['inputs'],'every position and every item',
 NT,[Q+'to_input_edit.rs',Q+'search/mod.rs',Q+'lsp_helper.rs',L,N],[('conversion functions and range literals',Q+'search/mod.rs, '+Q+'to_input_edit.rs, '+N)],['every range in a response'])
p('C19','A template name means the same file in diagnostics, definition and creation',
 'The template-not-found check, go-to-definition on a template name and the create-template action all resolve a name to the same path: the name\'s components appended to the configured templates directory. A missing-template problem is reported exactly when the name is empty or that path does not exist, go-to-definition leads to that path, and the action creates the path of the reported name.',
 ['inputs','configurations'],'every template name, directory content and configuration',
 NT,[Q+'lsp_helper.rs',L],[('path construction in the three features',Q+'lsp_helper.rs search_errors, '+L+' goto_definition, process_code_actions')],['diagnostics, definition, code action'])
p('C20','Configuration comes from the editor first, then the first valid config file',
 'The configuration used is the editor\'s initialization options if they are valid, else the first of pyproject.toml, Cargo.toml and jinja-lsp.toml that parses, else the previous value; a later valid configuration change replaces it and triggers a rescan, an invalid one leaves it unchanged. Only a configuration obtained this way counts as user defined, and the scan, the file classification and template resolution all use this one configuration.',
 ['configurations','histories'],'every combination of initialization options, config files and configuration-change notifications',
 NT,[CF,CH],[('selection in Initialize and DidChangeConfiguration',CH),('search_config',CF)],['diagnostics and definition after initialize'])
p('C21','A reset keeps the session intact and a failed reset changes nothing',
 'After a successful rescan (initial or by the reset command or a configuration change) the server works with the newly scanned files, the current configuration, the editor-specific completion style chosen at initialization and a working link to its own queue, and the problems of that scan are published; if the scan fails or the language is unsupported, the previous files and state stay in use unchanged.',
 ['histories','fault_sequences','configurations'],'every history of resets and every scan failure',
 NT,[CH,CF],[('Initialized arm of the worker',CH),('walkdir',CF)],['completion, diagnostics after reset'])
p('C22','Completion answers come from the list that fits the context',
 'Filter, test, identifier, template and snippet contexts are completed from the built-in filters, the built-in tests, the variables visible at the cursor, the known template files and the built-in snippets respectively, each entry listed with its own label and (for edits) the range of the token being completed; accepting an entry puts its own text in the place of the token in every editor: VS Code gets an empty edit with an additional edit, every other editor an insert-and-replace edit; snippets are marked as snippets and carry the same text for every editor.',
 ['inputs','configurations'],'every completion context and editor',
 NT,[CH,L],[('dispatch on the completion context',CH),('read_variables, read_templates',L)],['completion response'])
p('C23','The workspace scan covers every template and backend file exactly as configured',
 'A scan visits the templates directory and every configured backend directory recursively, loads every regular file whose extension makes it a template or backend file under its canonical file URI (the same URI an editor uses for it), extracts its variables, and reports the problems of every loaded template; nothing is skipped by name, depth or count.',
 ['inputs','configurations'],'every directory tree and configuration',
 NT,[CF,L],[('walkdir and read_file',CF+', '+L)],['diagnostics after initialized; documentSymbol of a scanned file'])
p('C24','Kinds, severities and messages are presented consistently everywhere',
 'Each kind of definition has one fixed description, completion icon, symbol icon and JavaScript kind, kinds with different meaning never share a description, and each kind of problem has its own message with undefined variables and missing templates as warnings and elsewhere-defined variables as information; the Node binding maps every kind to the JavaScript kind of the same name.',
 ['inputs'],'every kind',
 NT,[Q+'search/mod.rs',Q+'tree_builder.rs',N],[('kind tables',Q+'search/mod.rs, '+Q+'tree_builder.rs, '+N)],['symbols, completion, hover, diagnostics'])
p('C25','Document symbols list exactly the recorded variables of that document',
 'The document-symbol response for a known document contains one entry for each definition recorded for that document, and no other, with its own name, kind and range, in the recorded order; for an unknown document it is empty.',
 ['inputs','histories'],'every document and history',
 NT,[L],[('document_symbols',L)],['documentSymbol response'])
p('C26','Node binding: link hints and documents are stored and removed as a whole',
 'Saving link hints under a name stores the actions, their split form and their variables under that one name (default "temp"), removing hints removes all of these for that name and nothing else, and no call of the Node binding panics, because a panic would abort the host process.',
 ['histories','inputs'],'every sequence of calls of the binding',
 NT,[N,L],[('save_link_hint / remove_temp_link_hint / delete_all',N)],['values returned to JavaScript, host process'])
p('C27','Reported problems are semantically right for Jinja',
 'An undefined-variable problem is reported for a use exactly when no definition would be visible there at render time under Jinja\'s scoping rules.',
 ['programs'],'every set of templates and backend sources',NT,[Q+'lsp_helper.rs',Q+'search/definition.rs'],[('scope extraction',Q+'search/definition.rs')])
p('C28','Completion prefix is the text between identifier start and cursor',
 'The prefix used for filtering completions equals the part of the identifier (or template name) left of the cursor for every cursor position.',
 ['inputs'],'every identifier length and cursor column',NT,[Q+'search/mod.rs'],[('completion_start',Q+'search/mod.rs')])
p('C29','Requests are answered promptly and memory stays bounded',
 'Every request is answered within an interactive delay and the memory used is proportional to the workspace.',
 ['inputs','histories'],'every workspace size and edit rate',NT,[L,CH],[('debounce; per-document stores',L)])
p('C30','The scope of a definition ends with the construct that bounds it',
 'The names a for, with or block tag introduces and the parameters of a macro are in scope until the end tag of that very construct, whatever constructs are nested in it, precede it or follow it; set variables and macro names are in scope until the end tag of the innermost for, with, macro, block, filter or autoescape around them, else until the end of the document. Constructs that bound no scope (if/elif/else, for-else, call, block set, include, inline if) neither end nor extend the scope of any definition.',
 ['inputs','programs'],'every template',
 NT+' The tests look at one scope end of one template.',[Q+'search/definition.rs',Q+'search/queries.rs'],[('JinjaDefinitions::check, fix_end',Q+'search/definition.rs'),('DEFINITIONS query',Q+'search/queries.rs')],['hover, definition, completion and undefined-variable diagnostics'])
p('C31','Expressions are read as the variables, fields, filters and tests written there',
 'For every template without a syntax error, the objects recorded for it (what undefined-variable diagnostics, hover and definition work on) are exactly the variables, filters and tests its tags use, each with its own name and place: an identifier is recorded as a filter exactly if it directly follows the operator |, as a test exactly if it follows the keyword is, and an identifier after a dot is recorded as a field, in order and with its own place, of the object before the dot; fields of values that are no recorded variable, words of the language, names of keyword arguments, numbers, strings and comments are recorded as nothing. Line breaks and white-space control do not change this.',
 ['inputs','programs'],'every template',
 NT+' The tests look at a handful of expressions.',[Q+'search/objects.rs',Q+'search/queries.rs'],[('JinjaObjects::check, build_object, objects_query',Q+'search/objects.rs'),('OBJECTS query',Q+'search/queries.rs')],['hover, definition and undefined-variable diagnostics'])
p('C32','Node binding: links mark exactly the expressions that spell a stored hint',
 'Adding a text with the Node binding returns one link for each expression of a template document, and for each attribute chain of a Python document, whose dotted parts equal those of a link hint stored under the default name, with the name of that hint and the whole dotted expression as its place, moved by the offset of the text in the document; nothing else is linked, and hints and expressions are split at dots alike.',
 ['inputs','histories'],'every set of hints, text and offset',
 NT+' The tests link one hint in one text.',[N],[('add_one and its actions',N)],['links returned to JavaScript'])
p('C33','Node binding: answers are what was found at that cursor in that document',
 'hover, complete and goto_definition answer about the document that was added under that very name and number: hover shows the documentation of the filter, else the description of the first stored hint whose name starts with the identifier, else its kind and name; completion lists each item of the list that fits the context once and in order, replacing what was typed, and nothing in other contexts; goto_definition returns the one location in that document or every location among the hints marked as backend; get_variables lists every recorded variable once and in order; where nothing is found the answer is empty.',
 ['inputs','histories'],'every set of documents and hints, and every cursor',
 NT,[N],[('hover, complete, goto_definition, get_variables',N)],['values returned to JavaScript'])
p('C34','Hover and go to definition act on exactly the name the cursor is in',
 'For every template without a syntax error and every place of the cursor in its tags: if the cursor is in a variable, filter or test, from the front of its first character to the end of its last, or in one of the fields behind the name, hover and go to definition answer as they would in a text that holds only this name, in this role, at this place; everywhere else in the tags - in the words and operators of the language, numbers, strings, names of keyword arguments, white space between tokens - they answer as in a text without names. What stands before and behind the name, white space and line breaks make no difference.',
 ['inputs'],'every template and cursor',
 NT+' The tests hover a handful of names in one file.',[Q+'search/objects.rs','jinja-lsp/src/lsp_files.rs'],[('objects_query, is_hover, get_last_id',Q+'search/objects.rs'),('LspFiles::hover, goto_definition','jinja-lsp/src/lsp_files.rs')],['hover and definition requests'])
p('C35','Completion offers filters behind pipes, tests behind is, else variables',
 'For every template without a syntax error and every place of the cursor in its tags: behind the operator |, up to and including the front of the name of the filter, completion offers all built-in filters; in statements, on the line of the keyword is (or is not) that ends there or in front of it, up to the name of the test, it offers all built-in tests; nowhere outside the names of filters and tests it offers all of either. Between the tokens of an expression it answers as in an empty expression (the variables), in a variable without fields as in a text that holds only this variable at this place, in front of a tag and between the tokens of a statement as in a text without tags.',
 ['inputs'],'every template and cursor',
 NT+' The tests complete at a handful of places in one file.',[Q+'search/objects.rs','jinja-lsp/src/lsp_files.rs'],[('JinjaObjects::completion, in_pipe, in_expr, is_test, is_ident',Q+'search/objects.rs'),('LspFiles::completion','jinja-lsp/src/lsp_files.rs')],['completion requests'])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
