"""helper for the edits: rep(file, old, new)"""
def rep(p, o, n, count=1):
    s = open(p).read()
    assert s.count(o) >= 1, (p, o)
    open(p, 'w').write(s.replace(o, n, count))
L = 'jinja-lsp/src/lsp_files.rs'
CH = 'jinja-lsp/src/channels/lsp.rs'
DG = 'jinja-lsp/src/channels/diagnostics.rs'
BK = 'jinja-lsp/src/backend.rs'
CF = 'jinja-lsp/src/config.rs'
H = 'jinja-lsp-queries/src/lsp_helper.rs'
N = 'jinja-lsp-nodejs/src/lib.rs'
Q = 'jinja-lsp-queries/src/search/'
IE = 'jinja-lsp-queries/src/to_input_edit.rs'
