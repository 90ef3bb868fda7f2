"""C15: everything the server advertises or offers is implemented."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup
from props.c04 import squash

RULE = ('The initialize answer is evaluated from the source field by field; each announced capability is looked up in the '
        'table capability -> trait methods of the protocol and its methods must be implemented by the server object and '
        'end in a branch of the worker that can answer with a result, and the reverse.  The commands announced and the '
        'commands inside offered code actions are collected as constants; each must be in both sets the announcement and '
        'the executor, whose branch, specialised to that command, must do something.')

# capability -> methods of tower_lsp's LanguageServer that serve it
METHODS = {
    'hover_provider': ['hover'], 'completion_provider': ['completion'], 'signature_help_provider': ['signature_help'],
    'definition_provider': ['goto_definition'], 'type_definition_provider': ['goto_type_definition'], 'implementation_provider': ['goto_implementation'],
    'references_provider': ['references'], 'document_highlight_provider': ['document_highlight'], 'document_symbol_provider': ['document_symbol'],
    'workspace_symbol_provider': ['symbol'], 'code_action_provider': ['code_action'], 'code_lens_provider': ['code_lens'],
    'document_formatting_provider': ['formatting'], 'document_range_formatting_provider': ['range_formatting'],
    'document_on_type_formatting_provider': ['on_type_formatting'], 'rename_provider': ['rename'], 'document_link_provider': ['document_link'],
    'color_provider': ['document_color', 'color_presentation'], 'folding_range_provider': ['folding_range'], 'declaration_provider': ['goto_declaration'],
    'execute_command_provider': ['execute_command'], 'call_hierarchy_provider': ['prepare_call_hierarchy', 'incoming_calls', 'outgoing_calls'],
    'semantic_tokens_provider': ['semantic_tokens_full'], 'moniker_provider': ['moniker'], 'linked_editing_range_provider': ['linked_editing_range'],
    'inline_value_provider': ['inline_value'], 'inlay_hint_provider': ['inlay_hint'], 'diagnostic_provider': ['diagnostic'],
    'selection_range_provider': ['selection_range'],
}
# capabilities that are not served by a method
OTHER = ('position_encoding', 'text_document_sync', 'workspace', 'experimental')
RESOLVE = {'completion_provider': 'completion_resolve', 'code_lens_provider': 'code_lens_resolve', 'document_link_provider': 'document_link_resolve',
           'code_action_provider': 'code_action_resolve', 'inlay_hint_provider': 'inlay_hint_resolve'}


def flag(t):
    """an option that is given: True, False, or something else"""
    while t.k == 'agg' and len(t.a) == 3:
        t = t.a[2]
    if t is tm.TT:
        return True
    if t is tm.FF:
        return False
    return t


def constant(t):
    return all(x.k in ('agg', 'int', 'str', 'seq') or x in (tm.TT, tm.FF) for x in tm.subterms(t))


def given(t):
    if t.k == 'agg' and t.a[1] == 0 and len(t.a) == 2:
        return False
    return flag(t) is not False


def check(k):
    S = k.server()
    s = S.case('Initialize')
    caps = [(c, x) for c, v in rules.replies(S, s) for x in rules.aggs(v, 'ServerCapabilities')]
    if not k.ob('answer', len(caps) == 1 and caps[0][0] is TRUE or len(caps) >= 1, 'initialize is answered with capabilities', 'Initialize', str(len(caps))):
        return
    handlers = dict((m, key) for m, (v, cond, evs, key) in S.a.handlers.items())
    k.floor('handlers', len(handlers), 10)
    commands = []
    for c, cap in caps:
        adt = cap.a[0]
        at = lambda f, x=cap, a=adt: tm.field(x, a, 0, tm.FN[a][0].index(f))
        n = 0
        for f in tm.FN[adt][0]:
            v = at(f)
            if f in OTHER:
                continue
            if f not in METHODS:
                k.ob('unknown:' + f, not given(v), 'the capability %s is not announced' % f, 'Initialize', rules.flat(v))
                continue
            n += 1
            on = given(v)
            if not k.ob('fixed:' + f, constant(v), 'whether %s is announced does not depend on anything' % f, 'Initialize', rules.flat(v)):
                continue
            for m in METHODS[f]:
                if on:
                    k.ob('implemented:' + f, m in handlers, 'the announced %s is served by %s' % (f, m), 'Initialize', 'no method ' + m)
                else:
                    k.ob('announced:' + f, m not in handlers, 'the implemented %s is announced' % m, 'Initialize', rules.flat(v))
            if on:
                works(k, S, f, METHODS[f][0])
            r = resolve(v)
            if r is not None and f in RESOLVE:
                k.ob('resolve:' + f, (r is True) == (RESOLVE[f] in handlers), '%s resolves items exactly if it says so' % f, 'Initialize', rules.flat(v))
            elif f in RESOLVE:
                k.ob('resolve:' + f, RESOLVE[f] not in handlers, '%s resolves items exactly if it says so' % f, 'Initialize', rules.flat(v))
            if f == 'execute_command_provider' and on:
                for o in rules.aggs(v, 'ExecuteCommandOptions'):
                    for bs, g, x in rules.elements(S, rules.sel(o, ('ExecuteCommandOptions', 'commands')), c):
                        if k.ob('command:fixed', x.k == 'str' and not bs, 'the announced commands are fixed', 'Initialize', rules.flat(x)):
                            commands.append(x.a[0])
        k.floor('capabilities', n, 25)
        enc = at('position_encoding')
        k.ob('encoding', not given(enc) or flag(enc) is not True and tm.contains(enc, lambda t: t is tm.S('utf-16')), 'columns are announced as UTF-16 units', 'Initialize', rules.flat(enc))
        sync(k, S, at('text_document_sync'), handlers)
    known = methods()
    extra = [m for m in handlers if m not in known and m not in ('initialize', 'initialized', 'shutdown', 'did_open', 'did_change', 'did_save', 'did_close',
                                                                 'did_change_configuration', 'did_change_watched_files', 'did_change_workspace_folders',
                                                                 'will_save', 'will_save_wait_until') and m not in RESOLVE.values()]
    k.ob('handlers', not extra, 'every handler belongs to a capability', 'Backend', str(extra))
    offered(k, S, commands)


def methods():
    return {m for l in METHODS.values() for m in l}


def resolve(v):
    """the resolve option of a provider"""
    for x in tm.subterms(v):
        if x.k == 'agg' and x.a[0] in tm.FN and x.a[1] < len(tm.FN[x.a[0]]) and 'resolve_provider' in tm.FN[x.a[0]][x.a[1]]:
            r = tm.field(x, x.a[0], x.a[1], tm.FN[x.a[0]][x.a[1]].index('resolve_provider'))
            return flag(r) if given(r) else False
    return None


def works(k, S, f, m):
    """the branch of the worker can answer with a result"""
    kinds = {squash(v): v for v in S.variants}
    var = kinds.get(squash(m))
    if not k.ob('message:' + f, var is not None, '%s reaches the worker' % m, 'Backend'):
        return
    c = S.case(var)
    rs = rules.replies(S, c)
    if f == 'execute_command_provider':
        k.ob('works:' + f, bool(rs), '%s is answered' % m, var)
        return
    some = [x for g, v in rs for h, x in rules.pruned(v, g) if not (x.k == 'agg' and len(x.a) == 2)]
    k.ob('works:' + f, bool(some), '%s can be answered with a result' % m, var, str(len(rs)))


def sync(k, S, v, handlers):
    """how the editor sends documents"""
    o = rules.aggs(v, 'TextDocumentSyncOptions')
    if not k.ob('sync', len(o) == 1, 'document synchronisation is announced with its options', 'Initialize', rules.flat(v)):
        return
    o = o[0]
    opt = lambda f: rules.sel(o, ('TextDocumentSyncOptions', f))
    k.ob('sync:open', flag(opt('open_close')) is True and 'did_open' in handlers, 'open notifications are announced and handled', 'Initialize', rules.flat(opt('open_close')))
    save = opt('save')
    k.ob('sync:save', given(save) and 'did_save' in handlers, 'save notifications are announced and handled', 'Initialize', rules.flat(save))
    for f, m in (('will_save', 'will_save'), ('will_save_wait_until', 'will_save_wait_until')):
        k.ob('sync:' + f, flag(opt(f)) is not True or m in handlers, '%s is announced only if handled' % f, 'Initialize')
    ch = opt('change')
    x = flag(ch)
    mode = x.a[0] if isinstance(x, tm.T) and x.k == 'int' else None
    # what the handler implements
    s = S.scene('DidChange', 'html', True)
    lst = rules.sel(s.param(), ('DidChangeTextDocumentParams', 'content_changes'))
    d = s.after('documents')
    rg = [a for a in tm.FN if a.split('::')[-1] == 'TextDocumentContentChangeEvent'][0]
    ri = tm.FN[rg][0].index('range')
    hits = []
    for t in rules.through(S, s.on(d)):
        if t.k == 'f' and t.a[1] == rg and t.a[3] == ri:
            hits.append(t)
    inc = bool(hits)
    k.ob('sync:change', 'did_change' in handlers and (mode == 2 and inc), 'changes are announced as increments and the handler applies increments', 'Initialize', 'mode %s, ranges %s' % (mode, inc))


def offered(k, S, commands):
    k.floor('announced commands', len(commands), 1)
    k.ob('commands:unique', len(set(commands)) == len(commands), 'a command is announced once', 'Initialize')
    n = 0
    offers = set()
    c = S.case('CodeAction')
    for g, v in rules.replies(S, c):
        for x in rules.aggs(v, 'Command'):
            cmd = rules.sel(x, ('Command', 'command'))
            for h, y in rules.pruned(cmd, g):
                n += 1
                if k.ob('offer:fixed', y.k == 'str', 'an offered command is fixed', 'CodeAction', rules.flat(y)):
                    offers.add(y.a[0])
    k.floor('offered commands', n, 1)
    for o in sorted(offers):
        k.ob('offered:' + o, o in commands, 'the offered command %s is announced' % o, 'CodeAction')
    e = S.case('ExecuteCommand')
    name = rules.sel(e.param(0), ('ExecuteCommandParams', 'command'))
    handled = set()
    for ev in e.events:
        for i in sup(ev.cond):
            t = ATOMS[i]
            if t.k == 'eq' and any(x is name for x in t.a):
                handled |= {x.a[0] for x in t.a if isinstance(x, tm.T) and x.k == 'str'}
    for cmd in sorted(set(commands) | offers):
        does = executed(S, e, name, cmd)
        k.ob('command:' + cmd, bool(does), 'the command %s does something when it is executed' % cmd, 'ExecuteCommand')
        if cmd == 'reset_variables':
            vi = S.variants.index('Initialized')
            sends = [x for x in does if rules.is_send(x) and rules.chan_of(x.args[0]) is S.main and x.args[1].k == 'agg' and x.args[1].a[1] == vi]
            k.ob('reset', bool(sends), 'resetting the variables starts a new scan', 'ExecuteCommand', str([x.name for x in does]))
    for cmd in sorted(handled - set(commands)):
        k.ob('executed:' + cmd, False, 'the executed command %s is announced' % cmd, 'ExecuteCommand')


def executed(S, e, name, cmd):
    """what happens for this command and not for an unknown one"""
    def with_name(c):
        def at(t):
            if t.k == 'eq' and any(x is name for x in t.a):
                y = [x for x in t.a if x is not name][0]
                if y.k == 'str':
                    return y.a[0] == c
            return None
        return at
    mine, other = with_name(cmd), with_name(None)
    out = []
    for ev in e.events:
        if ev.kind != 'call' or not rules.is_send(ev) or tm.contains(ev.args[0], lambda t: t is e.param(1)):
            continue
        if rules.assume_by(ev.cond, mine, {}) is not FALSE and rules.assume_by(ev.cond, other, {}) is FALSE:
            out.append(ev)
    for (r, p), (lv, i, step) in S.state.items():
        x = e.on(step)
        if rules.assume_by(x, mine, {}) is not rules.assume_by(x, other, {}):
            out.append(ChangesState())
    return out


class ChangesState(object):
    name, kind = 'state', 'state'
    args = (tm.sym('state'), tm.sym('state'))
