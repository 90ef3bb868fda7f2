"""C12: the server and the node binding only read."""
import rules
import effects
import facts
import terms as tm
from bdd import TRUE, FALSE, AND

RULE = ('Effect inference over every body of the server and of the node binding: each function a body calls or passes '
        'on is classified by its resolved path.  From the file system modules only reading functions are allowed, from '
        'the process, network, library loading, environment changing and raw descriptor modules nothing.  Proposals to '
        'the editor are found by the values that bodies make: the only file operation is creating a file, and the '
        'value flow of every create option shows that it never asks to overwrite.')

READ_FS = {'canonicalize', 'read_to_string', 'read', 'read_dir', 'metadata', 'symlink_metadata', 'exists', 'try_exists', 'read_link',
           'Metadata', 'ReadDir', 'DirEntry', 'FileType'}
READ_METHODS = ('std::fs::File::open', 'std::fs::File::metadata', 'tokio::fs::File::open', 'tokio::fs::file::File::open',
                'std::fs::File::read', 'std::fs::OpenOptions::new', 'std::fs::OpenOptions::read', 'std::fs::OpenOptions::open')
FORBIDDEN = ('std::process', 'std::net', 'tokio::process', 'tokio::net', 'std::os', 'libc', 'libloading', 'nix', 'rustix', 'reqwest', 'hyper',
             'std::env::set_var', 'std::env::set_current_dir', 'std::env::remove_var', 'mio', 'socket2', 'core::net', 'tempfile', 'std::sys')
SERVER_ONLY_FFI = ('napi', 'napi_sys')
WRITE_METHODS = {'create_dir', 'create_dir_all', 'write', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'hard_link', 'set_permissions'}
CRATES = {'core', 'std', 'alloc', 'tokio', 'tower_lsp', 'lsp_types', 'tree_sitter', 'tree_sitter_rust', 'tree_sitter_python', 'tree_sitter_jinja2',
          'ropey', 'serde', 'serde_core', 'serde_json', 'toml', 'walkdir', 'url', 'env_logger', 'log', 'napi', 'napi_sys', 'napi_derive', 'jinja_lsp', 'jinja_lsp_queries',
          'jinja_lsp_nodejs', 'anyhow', 'streaming_iterator', 'async_trait', 'tree_sitter_language', 'memchr', 'regex', 'once_cell', 'ctor', 'futures',
          'futures_util', 'futures_core', 'bytes', 'proc_macro', 'hashbrown', 'indexmap', 'itoa', 'ryu', 'smallvec', 'bitflags', 'thiserror'}


def fs_bad(p):
    for m in ('std::fs::', 'tokio::fs::'):
        if m in p:
            rest = p[p.index(m) + len(m):]
            if any(p == r or p.endswith(r) for r in READ_METHODS):
                return False
            parts = rest.split('::')
            if parts[-1].rstrip('>') in WRITE_METHODS and len(parts) <= 2:
                return True
            return not (parts[0] in READ_FS or parts[-1] in READ_FS)
    return False


def check(k):
    S = k.server()
    node = facts.node()
    n = 0
    outside = {}
    for name, prog in (('server', S.prog), ('node', node)):
        for body, sp, p, crate, called in effects.refs(prog):
            n += 1
            short = '::'.join(p.split('::')[-2:])
            if fs_bad(p):
                k.ob('writes:%s:%s:%s' % (name, body, short), False, 'files are only read', sp, p)
            elif effects.under(p, *FORBIDDEN):
                k.ob('effect:%s:%s:%s' % (name, body, short), False, 'no process, network, library loading or raw descriptor is used', sp, p)
            elif p.split('::')[-1] in ('print_dot_graphs', 'print_dot_graph', 'persist', 'write_all_to'):
                k.ob('effect:%s:%s:%s' % (name, body, short), False, 'nothing is written to files', sp, p)
            elif 'Path::' in p and p.split('::')[-1] in WRITE_METHODS and called:
                k.ob('effect:%s:%s:%s' % (name, body, short), False, 'files are only read', sp, p)
            if crate and crate not in CRATES:
                outside.setdefault(crate, (body, sp, p))
    for c, (body, sp, p) in outside.items():
        k.ob('crate:' + c, False, 'only libraries whose effects are known are used', sp, '%s from %s' % (p, body))
    k.floor('function references classified', n, 3000)
    k.ob('effects', True, 'every function reference was classified')
    # proposals
    nc = 0
    for name, prog in (('server', S.prog), ('node', node)):
        for body, sp, adt, v in effects.makes(prog):
            last = adt.split('::')[-1]
            if last == 'ResourceOp':
                nc += 1
                k.ob('proposal:%s:%s:%s' % (name, body, v), v == 'Create', 'the only file operation proposed is creating a file', sp, v)
            if last in ('RenameFile', 'DeleteFile', 'TextDocumentEdit', 'RenameFileOptions', 'DeleteFileOptions') and 'lsp_types' in adt:
                k.ob('proposal:%s:%s:%s' % (name, body, last), False, 'the only file operation proposed is creating a file', sp, adt)
            if last == 'DocumentChangeOperation':
                k.ob('proposal:%s:%s:%s' % (name, body, v), v == 'Op', 'documents are not edited', sp, v)
            if last == 'DocumentChanges':
                k.ob('proposal:%s:%s:%s' % (name, body, v), v == 'Operations', 'documents are not edited', sp, v)
    for body, sp, p, crate, called in list(effects.refs(S.prog)) + list(effects.refs(node)):
        if p.split('::')[-1] in ('apply_edit',) and 'Client' in p:
            k.ob('apply:%s' % body, False, 'edits are only proposed in answers', sp, p)
    k.floor('proposed operations', nc, 1)
    # create options
    seen, n = set(), 0
    opts = [p for p in tm.FN if p.endswith('::CreateFileOptions')]
    cf = [p for p in tm.FN if p.endswith('lsp_types::CreateFile') or p.endswith('::CreateFile')]
    we = [p for p in tm.FN if p.endswith('::WorkspaceEdit')]
    if not k.ob('options', bool(opts) and bool(cf) and bool(we), 'the proposal types are known'):
        return
    done = set()
    for e in S.events:
        for x in list(e.args) + [e.res]:
            if not isinstance(x, tm.T) or x in done:
                continue
            done.add(x)
            for t in tm.subterms(x, seen):
                if t.k != 'agg':
                    continue
                if t.a[0] == opts[0]:
                    n += 1
                    ow = tm.field(t, opts[0], 0, tm.FN[opts[0]][0].index('overwrite'))
                    bad = [v for g, v in tm.cases(ow) if not (v is tm.NONE or v.k == 'agg' and v.a[1] == 1 and tm.nb(v.a[2]) is FALSE)]
                    k.ob('overwrite:%s' % e.fn(), not bad, 'a created file never replaces an existing one', e.span, rules.flat(ow))
                elif t.a[0] == cf[0]:
                    o = tm.field(t, cf[0], 0, tm.FN[cf[0]][0].index('options'))
                    for g, v in tm.cases(o):
                        k.ob('create:%s' % e.fn(), v is tm.NONE or v.k == 'agg' and v.a[1] == 1, 'the options of a proposed file are known', e.span, rules.flat(o))
                elif t.a[0] == we[0]:
                    ch = tm.field(t, we[0], 0, tm.FN[we[0]][0].index('changes'))
                    k.ob('edits:%s' % e.fn(), all(v is tm.NONE for g, v in tm.cases(ch)), 'no text edit is proposed', e.span, rules.flat(ch))
    k.floor('create options seen', n, 1)
