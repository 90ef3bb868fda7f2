"""C26: Node binding - link hints and documents are stored and removed as a whole; no call panics."""
import arith
import rules
import steps
import stores
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT
from props import c01, c16

RULE = ('For every operation of the binding the value of the binding\'s state after the call is derived as a function of the '
        'state before and of the arguments.  Saving hints must insert, under one key (the given name, else "temp"), the '
        'actions, their split form and their variables, each made of every action in order, and change nothing else; without '
        'actions nothing changes.  Removing must delete that key from the same three and change nothing else.  Adding a '
        'document inserts text, tree and variables under one URL only; deleting and adding documents leaves the '
        'hints alone.  Every operation that can panic inside the binding or what it calls is an obligation: its condition must '
        'be unsatisfiable given the linear facts, the tree store having every language (shown for the new '
        'state and every operation), the query texts being queries of their grammars, and a file URL with a fixed host '
        'part always being parsable.')

HINTS = ('actions', 'action_objects', 'variables')


class Missing(Exception):
    pass


class State(object):
    """fields of the binding and of the files it holds"""

    def __init__(self, N):
        c = [p for p in tm.FN if p.split('::')[-1] == 'NodejsLspFiles']
        if len(c) != 1:
            raise Missing('NodejsLspFiles')
        self.adt = c[0]
        c = [p for p in tm.FN if p.split('::')[-1] == 'LspFiles']
        self.files = c[0]
        self.lang = [p for p in tm.VN if p.split('::')[-1] == 'LangType'][0]
        self.own = tm.FN[self.adt][0]
        self.inner = tm.FN[self.files][0]
        self.names = [f for f in self.own if f != 'lsp_files'] + ['lsp_files.' + f for f in self.inner]

    def part(self, x, f):
        if f in self.own:
            return tm.field(x, self.adt, 0, self.own.index(f))
        f = f.split('.')[-1]
        return tm.field(tm.field(x, self.adt, 0, self.own.index('lsp_files')), self.files, 0, self.inner.index(f))

    def parts(self, x):
        return {f.split('.')[-1]: self.part(x, f) for f in self.names}


class W(object):
    """where loop variables are looked up"""

    def __init__(self, N, D):
        self.a = N
        self.lang_adt = D.lang


def lemma(N, D, trees):
    l = c01.Lemmas(None, None, trees)
    return l


def trees_some(D):
    own = tm.sym('self')

    def f(t):
        if t.k == 'isv' and t.a[0].k == 'get' and t.a[0].a[1].k in ('agg', 'gv') and derived(D, t.a[0].a[0]):
            return t.a[1] == 1
        return None
    return f


def derived(D, m):
    """a map made from the binding's tree store or the new one, never removing a language"""
    if m.k == 'f':
        return m is D.part(tm.sym('self'), 'lsp_files.trees')
    if m.k == 'put':
        return m.a[1].k in ('agg', 'gv') and derived(D, m.a[0])
    if m.k == 'mfor':
        return derived(D, m.a[1])
    if m.k == 'gv':
        return all(derived(D, v) for g, v in m.a)
    if m.k == 'lv':
        p = m.a[2]
        return bool(p) and p[-1][0] == 'f' and p[-1][1] == D.files and D.inner[p[-1][3]] == 'trees'
    if m.k == 'last':
        return derived(D, m.a[2])
    return False


def langs(k, N, D):
    """every operation keeps an entry for every language"""
    w = W(N, D)
    own = D.part(tm.sym('self'), 'lsp_files.trees')
    n = len(tm.VN[D.lang])
    v = N.exports['new'][0]
    have = rules.langs_of(w, D.part(v, 'lsp_files.trees'))
    k.ob('trees:new', have is not None and len(have) == n, 'a new binding has a tree map for every language', D.adt, str(have))

    def keeps(m, seen=()):
        if m is own or m in seen:
            return True
        if m.k == 'lv' and m in N.lvinfo:
            i, s, b = N.lvinfo[m]
            return keeps(i, seen + (m,)) and keeps(s, seen + (m,))
        if m.k == 'put':
            return keeps(m.a[0], seen)
        if m.k == 'mfor':
            return keeps(m.a[1], seen)
        if m.k == 'last':
            return keeps(m.a[2], seen)
        if m.k == 'gv':
            return all(keeps(x, seen) for g, x in m.a)
        return m.k == 'undef'
    for name, (v, c, st, ev, key) in sorted(N.exports.items()):
        x = st.get(('arg', 0))
        if x is None or not has_state(D, x):
            continue
        k.ob('trees:' + name, keeps(D.part(x, 'lsp_files.trees')), '%s keeps the tree map of every language' % name, key, rules.flat(D.part(x, 'lsp_files.trees')))


def has_state(D, x):
    if x.k == 'gv':
        return any(has_state(D, v) for g, v in x.a)
    return x.k == 'agg' and x.a[0] == D.adt


def after(N, name, pred):
    v, c, st, ev, key = N.exports[name]
    x = st.get(('arg', 0))
    if x is None:
        raise Missing('state after ' + name)
    return rules.assume_by(x, pred), key


def opt(name, some):
    s = tm.sym(name)

    def f(t):
        if t.k == 'isv' and t.a[0] is s:
            return (t.a[1] == 1) == some
        return None
    return f


def one_each(t, src):
    """(element, value) when t is the list with one value for every element of src, in order"""
    if t.k == 'it':
        t = t.a[0]
    if t.k == 'seq' and len(t.a) == 1 and t.a[0][0] == 'for':
        _, bs, g, v = t.a[0][:4]
        if len(bs) == 1 and bs[0].k == 'elem' and g is TRUE and bs[0].a[0] is src:
            return bs[0], v
    return None


def name_of(el, ty='Action'):
    return rules.sel(el, (ty, 'name'))


def split_name(v, name):
    """the fields of an action object are its name split at the dots"""
    f = rules.sel(v, ('ActionObject', 'fields'))
    return f.k == 'call' and f.a[0] in ('split', 'str::split') and f.a[1] is name and f.a[2] is tm.S('.')


def hints(k, N, D, op, keyterm, which, actions, keysyms):
    """op stores under the key"""
    for given in keysyms:
        key = keyterm(given)
        pred = rules.both(opt('actions', True), *( [opt('hint', given)] if given is not None else []))
        x, where = after(N, op, pred)
        tag = op + ('' if given is None else ':given' if given else ':default')
        for f in D.names:
            s = f.split('.')[-1]
            b, a = D.part(tm.sym('self'), f), rules.assume_by(D.part(x, f), pred)
            if s not in which:
                k.ob('%s:keeps:%s' % (tag, s), rules.same(a, b), '%s leaves %s alone' % (op, s), where, rules.flat(a))
                continue
            ok = a.k == 'put' and a.a[0] is b and a.a[1] is key
            if not k.ob('%s:key:%s' % (tag, s), ok, '%s stores %s under the name' % (op, s), where, rules.flat(a)):
                continue
            v = a.a[2]
            if s == 'actions':
                k.ob('%s:value:%s' % (tag, s), v is actions, '%s stores the given actions' % op, where, rules.flat(v))
                continue
            e = one_each(v, actions)
            if not k.ob('%s:each:%s' % (tag, s), e is not None, 'one entry of %s for every action, in order' % s, where, rules.flat(v)):
                continue
            if s == 'action_objects':
                ok = split_name(e[1], name_of(e[0]))
            else:
                it = rules.sel(e[1], ('Identifier', 'identifier_type'))
                ok = rules.sel(e[1], ('Identifier', 'name')) is name_of(e[0]) and it.k == 'agg' and tm.VN[it.a[0]][it.a[1]] == 'BackendVariable'
            k.ob('%s:value:%s' % (tag, s), ok, 'an entry of %s says what its action says' % s, where, rules.flat(e[1]))
    none = opt('actions', False)
    for given in keysyms:
        pred = rules.both(none, *([opt('hint', given)] if given is not None else []))
        x, where = after(N, op, pred)
        ch = [f for f in D.names if not rules.same(rules.assume_by(D.part(x, f), pred), D.part(tm.sym('self'), f))]
        k.ob('%s:nothing:%s' % (op, given), not ch, 'without actions %s changes nothing' % op, where, str(ch))


def check(k):
    N = k.node()
    D = State(N)
    for op in ('save_link_hint', 'remove_temp_link_hint', 'add_link_hints', 'delete_all', 'add_one', 'new', 'hover', 'complete', 'goto_definition', 'get_variables'):
        if not k.ob('export:' + op, op in N.exports, 'the binding offers %s' % op, D.adt):
            return
    langs(k, N, D)
    acts = tm.payload(tm.sym('actions'))
    hk = {True: tm.payload(tm.sym('hint')), False: tm.S('temp')}
    hints(k, N, D, 'save_link_hint', lambda g: hk[g], HINTS, acts, (True, False))
    hints(k, N, D, 'add_link_hints', lambda g: tm.sym('uri'), ('actions', 'action_objects'), acts, (None,))
    # removing
    for given in (True, False):
        pred = opt('hint', given)
        x, where = after(N, 'remove_temp_link_hint', pred)
        tag = 'remove:' + ('given' if given else 'default')
        for f in D.names:
            s = f.split('.')[-1]
            b, a = D.part(tm.sym('self'), f), rules.assume_by(D.part(x, f), pred)
            if s in HINTS:
                ok = a.k == 'del' and a.a[0] is b and a.a[1] is hk[given]
                k.ob('%s:%s' % (tag, s), ok, 'removing hints removes the name from %s and nothing else' % s, where, rules.flat(a))
            else:
                k.ob('%s:keeps:%s' % (tag, s), rules.same(a, b), 'removing hints leaves %s alone' % s, where, rules.flat(a))
    documents(k, N, D)
    fresh(k, N, D)
    panics(k, N, D)


def fresh(k, N, D):
    v, c, st, ev, key = N.exports['new']
    for f in ('actions', 'action_objects', 'lsp_files.variables', 'lsp_files.documents'):
        a = D.part(v, f)
        k.ob('new:' + f.split('.')[-1], a.k == 'emap', 'a new binding holds no %s' % f.split('.')[-1], key, rules.flat(a))


def documents(k, N, D):
    me = tm.sym('self')
    w = W(N, D)
    # deleting
    x, where = after(N, 'delete_all', lambda t: None)
    for f in ('actions', 'action_objects'):
        k.ob('delete_all:keeps:' + f, rules.same(D.part(x, f), D.part(me, f)), 'deleting documents leaves %s alone' % f, where, rules.flat(D.part(x, f)))
    docs = D.part(me, 'lsp_files.documents')
    f = tm.sym('filename')
    for s in ('documents', 'trees', 'variables', 'code_actions'):
        b, a = D.part(me, 'lsp_files.' + s), D.part(x, 'lsp_files.' + s)
        bad = []
        es = stores.leaf_edits(w, a, b, s == 'trees')
        for e in es:
            if e.op == 'del' and not (c16.doc_of(e.key, (docs, b)) and (e.cond is tm.nb(c16.has_id(e.key, f)) or c16.exactly(e.cond, e.key, f))):
                bad.append('removes %s when %s' % (rules.flat(e.key, 120), tm.shown(e.cond, 3)[:200]))
            elif e.op == 'keep' and not c16.exactly(NOT(tm.nb(e.val) if isinstance(e.val, tm.T) else e.val), e.key, f):
                bad.append('keeps when ' + tm.shown(e.val, 3)[:200])
            elif e.op not in ('del', 'keep'):
                bad.append(e.op)
        k.ob('delete_all:removes:' + s, bool(es) and not bad, 'deleting documents removes from %s exactly those whose name contains the identifier' % s, where, '; '.join(bad) or 'nothing is removed')
    # adding
    for ext, lang in (('jinja', 'Template'), ('py', 'Backend'), ('html', 'Template')):
        v, c, st, ev, key = N.exports['add_one']
        url = None
        parses = lambda t: True if t.k == 'isv' and t.a[0].k == 'call' and t.a[0].a[0] == 'parse' and t.a[1] == 1 else None
        pred = rules.both(rules.ext_is(ext), parses, lemma(N, D, trees_some(D)))
        m = {tm.sym('ext'): tm.S(ext)}
        x = rules.assume_by(rules.rewrite(st[('arg', 0)], m), pred)
        text, keys = None, set()
        for s in ('documents', 'trees', 'variables', 'code_actions'):
            b, a = D.part(me, 'lsp_files.' + s), rules.assume_by(D.part(x, 'lsp_files.' + s), pred)
            es = stores.leaf_edits(w, a, b, s == 'trees')
            bad = [e for e in es if e.op not in ('put', 'del')]
            keys |= {e.key for e in es if e.op in ('put', 'del')}
            k.ob('add_one:%s:%s' % (ext, s), not bad and (bool(es) or s == 'code_actions'), 'adding a document stores its %s' % s, key, rules.flat(a))
            if s == 'documents':
                ok = a.k == 'put' and a.a[0] is b and ends_with(a.a[2], tm.sym('content'))
                k.ob('add_one:%s:text' % ext, ok, 'the text stored is the given content behind the columns before it', key, rules.flat(a))
                text = a.a[2] if ok else None
            if s == 'trees' and text is not None:
                ts = [t for t in tm.subterms(a) if t.k == 'call' and t.a[0] == 'parse' and t.a[2] is not text_in(text)]
                k.ob('add_one:%s:tree' % ext, not ts, 'the tree stored is the tree of the text stored', key, '; '.join(rules.flat(t, 200) for t in ts))
        k.ob('add_one:%s:key' % ext, len(keys) == 1, 'everything about an added document is stored under one URL', key, '; '.join(rules.flat(t, 200) for t in keys))
        for t in keys:
            us = {str(x.a[0]) for x in tm.subterms(t) if x.k == 'sym'}
            k.ob('add_one:%s:url' % ext, {'filename', 'id'} <= us, 'the URL tells documents apart by name and number', key, rules.flat(t, 200))
        for f in ('actions', 'action_objects', 'filters', '_snippets', 'lsp_files.config', 'lsp_files.queries', 'lsp_files.parsers'):
            if f in D.names:
                a = rules.assume_by(D.part(x, f), pred)
                k.ob('add_one:%s:keeps:%s' % (ext, f), rules.same(a, D.part(me, f)), 'adding a document leaves %s alone' % f, key, rules.flat(a))


def text_in(rope):
    if rope.k == 'call' and rope.a[0] == 'rope':
        return rope.a[1]
    return rope


def ends_with(rope, s):
    t = text_in(rope)
    if t is s:
        return True
    if t.k == 'cat':
        l = t.a[-1] if not isinstance(t.a[0], tuple) else t.a[0][-1]
        return l is s
    return t.k == 'call' and t.a[0] == 'cat' and t.a[-1] is s


def panics(k, N, D):
    lem = lemma(N, D, trees_some(D))
    evs = [e for e in N.events if not (e.name.startswith('overflow') and e.name.split(':')[1] in ('Add', 'Mul'))]
    n = c01.events(k, 'panic', evs, lem)
    for i, (q, ps) in enumerate(lem.bad.items()):
        k.ob('query:%s:%d' % (rules.flat(q.a[1], 40), i), not ps, 'the query text is a query of its grammar', '', '; '.join(ps[:3]))
    k.floor('operations that can panic', n, 10)
    keys = set()
    for t in [x for e in N.events for x in list(e.args) + [e.cond]] + [x for ex in N.exports.values() for x in [ex[0]] + list(ex[2].values())]:
        for y in tm.subterms(t):
            if y.k == 'call' and str(y.a[0]).startswith('fn:'):
                keys.add(str(y.a[0])[3:])
    k.floor('extractors', len(keys), 5)
    for key in sorted(keys):
        X = steps.Extractor(N.prog, key)
        c01.events(k, 'extract:' + key.split('::')[-1], X.a.events, c01.Lemmas(None, None, None))
    # no call returns only under a condition
    for name, (v, c, st, ev, key) in sorted(N.exports.items()):
        k.ob('returns:' + name, arith.discharge(NOT(c), None, lem), '%s always returns' % name, key, rules.flat(tm.B(c), 300))
