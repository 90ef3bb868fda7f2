"""C16: a message about one document never changes what is stored for another."""
import rules
import stores
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom

RULE = ('For every message kind and every kind of document the value of each store after the message is compared with '
        'its value before: the difference must consist of single insertions and removals under the key of the '
        "message's own document (for create-template offers: the keys the message carries).  Requests and the other "
        'messages leave every store as it was.  Deleting by identifier is followed the same way: it removes, from every '
        'store that is keyed by document, exactly the entries whose key contains the identifier.')

STORES = ('documents', 'trees', 'variables', 'code_actions', 'diagnostics_task')
OWN = {'DidOpen': (('DidOpenTextDocumentParams', 'text_document'), ('TextDocumentItem', 'uri')),
       'DidChange': (('DidChangeTextDocumentParams', 'text_document'), ('VersionedTextDocumentIdentifier', 'uri')),
       'DidSave': (('DidSaveTextDocumentParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))}
CAN = {'DidOpen': ('documents', 'trees', 'variables', 'code_actions', 'diagnostics_task'),
       'DidChange': ('documents', 'trees', 'variables', 'code_actions', 'diagnostics_task'),
       'DidSave': ('variables', 'code_actions', 'diagnostics_task'),
       'CodeActions': ('code_actions',)}
WHOLE = ('Initialized',)


def check(k):
    S = k.server()
    n = 0
    docmaps = [f for f in S.F if is_docmap(S, f)]
    k.ob('stores', set(STORES) <= set(docmaps), 'the stores keyed by document are known', S.files_adt, str(docmaps))
    for f in docmaps:
        if f not in STORES:
            k.note('also keyed by document: ' + f)
    for var in S.variants:
        if var in WHOLE:
            continue
        for ext in list(rules.EXTS) + [None]:
            s = S.scene(var, ext)
            for f in docmaps:
                b, a = s.before(f), s.after(f)
                n += 1
                if a is None or a is b:
                    k.ob('only-own:%s:%s:%s' % (var, ext, f), True, '%s leaves the %s of other documents alone' % (var, f))
                    continue
                bad = []
                for e in stores.leaf_edits(S, a, b, f == 'trees', s.on):
                    if e.op not in ('put', 'del'):
                        bad.append('%s: %s' % (e.op, rules.flat(s.nice(e.val) if isinstance(e.val, tm.T) else e.on, 200)))
                        continue
                    if f not in CAN.get(var, ()):
                        bad.append('changes %s' % f)
                    elif var in OWN:
                        if e.key is not rules.sel(s.param(), *OWN[var]):
                            bad.append('%s under %s' % (e.op, rules.flat(s.nice(e.key), 200)))
                    elif not own_element(S, e.key, s.param()):
                        bad.append('%s under %s' % (e.op, rules.flat(s.nice(e.key), 200)))
                k.ob('only-own:%s:%s:%s' % (var, ext, f), not bad, '%s changes %s only under its own document' % (var, f), S.files_adt, '; '.join(bad)[:600])
    k.floor('stores followed through messages', n, 300)
    # requests change nothing the worker carries
    for var in S.variants:
        if var in OWN or var in WHOLE or var in ('Initialize', 'DidChangeConfiguration', 'CodeActions', 'ExecuteCommand'):
            continue
        c = S.case(var)
        ch = []
        for (root, path), (lv, init, step) in S.state.items():
            if not rules.same(c.on(step), lv):
                ch.append(rules.flat(rules.rewrite(lv, S.names), 60))
        k.ob('reads:' + var, not ch, '%s changes nothing at all' % var, S.files_adt, 'changed: %s' % ch)
    k.ob('offers:source', offers_own(S), 'the offers kept for a document are replaced as a whole, under the document they were computed for')
    delete(k, S)


def is_docmap(S, f):
    adt = S.prog.adts[S.files_adt]
    tys = adt['crate'].types

    def doc_key(t):
        t = tys[t]
        if t['k'] == 'adt' and t['p'].split('::')[-1] in ('HashMap', 'BTreeMap'):
            k0 = tys[t['a'][0]]
            if k0['k'] == 'adt' and k0['p'].split('::')[-1] in ('Url', 'String'):
                return True
            return doc_key(t['a'][1])
        return False
    return doc_key(dict(adt['variants'][0]['f'])[f])


def own_element(S, key, m):
    """the key is one of the keys the message carries"""
    return key.k == 'f' and key.a[0].k == 'elem' and key.a[0].a[0] is m and key is tm.field(key.a[0], '()', 0, 0)


def offers_own(S):
    s = S.scene('CodeActions', None)
    a, b = s.after('code_actions'), s.before('code_actions')
    if a is None or a is b:
        return False
    for e in stores.leaf_edits(S, a, b, False):
        if e.op != 'put' or e.val is not tm.field(e.key.a[0], '()', 0, 1):
            return False
    return True


def delete(k, S):
    an = S.a
    ks = [x for x in S.prog.bodies if x.split('::')[-1] == 'delete_documents_with_id' and S.prog.bodies[x]['kind'] in ('fn', 'method')]
    if not k.ob('delete', len(ks) == 1, 'there is one operation that deletes the documents of an identifier'):
        return
    an.ctx = (('entry', 'delete'),)
    v, cond, st = an.entry(ks[0])
    me = st.get(('arg', 0))
    b = S.prog.bodies[ks[0]]
    names = argnames(b)
    self0, id0 = tm.sym(names[0]), tm.sym(names[1])
    keyed = {}
    for f in S.F:
        i = S.F.index(f)
        keyed[f] = (tm.field(self0, S.files_adt, 0, i), tm.field(me, S.files_adt, 0, i))
    docs = keyed['documents'][0]
    for f in S.F:
        before, after = keyed[f]
        if not is_docmap(S, f):
            k.ob('delete:keeps:' + f, after is before, 'deleting documents leaves %s alone' % f, b['span'], rules.flat(after))
            continue
        if f == 'diagnostics_task' and after is before:
            # pending refreshes, not stored facts: they only send a message
            k.ob('delete:' + f, True, 'pending refreshes are no stored facts')
            continue
        bad = []
        es = stores.leaf_edits(S, after, before, f == 'trees')
        if not es:
            bad.append('nothing is removed')
        for e in es:
            if e.op == 'del':
                if not doc_of(e.key, (docs, before)):
                    bad.append('removes ' + rules.flat(e.key, 200))
                elif e.cond is not tm.nb(has_id(e.key, id0)) and not exactly(e.cond, e.key, id0):
                    bad.append('removes when ' + tm.shown(e.cond, 3)[:200])
            elif e.op == 'keep':
                if not exactly(NOT(e.val if not isinstance(e.val, tm.T) else tm.nb(e.val)), e.key, id0):
                    bad.append('keeps when ' + tm.shown(e.val, 3)[:200])
            else:
                bad.append('%s %s' % (e.op, rules.flat(e.val, 200) if isinstance(e.val, tm.T) else ''))
        if f == 'trees':
            # every language
            allbs = [x for x in tm.subterms(after)]
            for e in stores.edits(S, after, lambda t: t is before):
                if e.op == 'put' and not every_key(e.key):
                    bad.append('only for the language ' + rules.flat(e.key, 100))
        k.ob('delete:' + f, not bad, 'deleting by identifier removes from %s exactly the documents whose key contains it' % f, b['span'], '; '.join(bad)[:600])


def every_key(t):
    return t.k == 'f' and t.a[0].k == 'elem' and t is tm.field(t.a[0], '()', 0, 0)


def argnames(b):
    return [b['locals'][i + 1][1] or 'arg%d' % (i + 1) for i in range(b['argc'])]


def doc_of(key, maps):
    return key.k == 'f' and key.a[0].k == 'elem' and any(key.a[0].a[0] is m for m in maps) and key is tm.field(key.a[0], '()', 0, 0)


def has_id(key, id0):
    return tm.call('contains', key, id0)


def exactly(cond, key, id0):
    """the condition says: the key contains the identifier"""
    from bdd import sup, ATOMS
    at = [ATOMS[i] for i in sup(cond)]
    return len(at) == 1 and cond is atom(at[0]) and any(y is key for y in tm.subterms(at[0])) and any(y is id0 for y in tm.subterms(at[0])) \
        and any(y.k == 'contains' or (y.k == 'call' and y.a[0] == 'contains') for y in [at[0]] + list(tm.subterms(at[0])))
