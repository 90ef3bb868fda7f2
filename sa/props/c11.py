"""C11: template and backend languages are never mixed up."""
import re
import rules
import stores
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup
from props import c20

RULE = ('The grammar of every parser, tree and query is traced from the grammar constants through the worker state, separately '
        'for a Rust and for a Python backend.  For every message and every file extension: each tree stored is a parse with the '
        'grammar of the language it is stored under, each query runs over a tree of its own grammar, each tree store access is of '
        'the language the extension stands for, and files with any other extension touch nothing.  The same for every operation of '
        'the Node binding.')

IGNORED = ('txt', 'HTML', 'htm', 'jinja2', 'pyc', 'toml', '', None)
WORLDS = ('rust', 'python')
GRAMMAR = re.compile(r'tree_sitter_(\w+?)::')


class World(object):
    """which grammar things have, for one backend language"""

    def __init__(self, S, a, slots, backend, fix):
        self.S, self.a, self.slots, self.backend, self.fix = S, a, slots, backend, fix

    def of(self, t, seen=frozenset()):
        """grammars a parser, query or tree may have; '?' if unknown"""
        t = self.fix(t)
        if t.k == 'gv':
            out = set()
            for g, v in t.a:
                out |= self.of(v, seen)
            return out
        if t.k == 'undef':
            return set()
        if t in self.slots:
            return self.slots[t]
        if t.k == 'const':
            m = GRAMMAR.search(str(t.a[0]))
            return {m.group(1)} if m else {'?'}
        if t.k == 'call' and t.a[0] in ('parser', 'query', 'parse', 'edited', 'set_language'):
            return self.of(t.a[1], seen)
        if t.k == 'agg' and len(t.a) == 3 and t.a[1] in (0, 1):
            return self.of(t.a[2], seen)
        if t.k == 'f' and t.a[0].k in ('call', 'agg', 'gv') and tm.payload(t.a[0]) is t:
            return self.of(t.a[0], seen)
        if t.k == 'f' and tm.payload(t.a[0]) is t:
            t = t.a[0]
        if t.k == 'get':
            inner = t.a[0]
            if inner.k == 'f' and inner.a[0].k == 'get':
                return self.lang(inner.a[0].a[1])
            return self.holds(inner, seen)
        if t.k == 'lv' and t in self.a.lvinfo and t not in seen:
            init, step, bs = self.a.lvinfo[t]
            return self.of(init, seen | {t}) | self.of(step, seen | {t})
        return {'?'}

    def holds(self, m, seen):
        """the grammars of a map's trees"""
        m = self.fix(m)
        if m.k == 'put':
            return self.of(m.a[2], seen) | self.holds(m.a[0], seen)
        if m.k == 'gv':
            return set().union(*[self.holds(v, seen) for g, v in m.a])
        if m.k == 'f' and m.a[0].k == 'get':
            return self.lang(m.a[0].a[1])
        return {'?'}

    def lang(self, l):
        """grammar of a language of the tree store"""
        if l.k != 'agg' or l.a[0] != self.S.lang_adt:
            return {'?'}
        return {'jinja2'} if tm.VN[self.S.lang_adt][l.a[1]] == 'Template' else {self.backend}


def check(k):
    S = k.server()
    if not rules.trees_invariant(k, S):
        return
    cs = c20.configs(S)
    own = {p: f for p, f in cs.items() if not c20.in_files(S, p)} or cs
    lang = list(own.values())[0]['lang'][0]
    n = 0
    for w in WORLDS:
        slots = slots_of(k, S, lang, w)

        def at(t, w=w):
            while t.k == 'bool' and isinstance(t.a[0], tm.T):
                t = t.a[0]
            if t.k == 'call' and t.a[0] == 'bad_query':
                return False
            if t.k == 'eq':
                for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if a.k == 'str' and b is lang:
                        return a.a[0] == w
            return None
        memo = {}
        W = World(S, S.a, slots, w, lambda x: rules.assume_by(x, at, memo))
        for ext in list(rules.EXTS) + list(IGNORED):
            for v in S.variants:
                n += message(k, S, W, v, ext, w)
    k.floor('queries and trees followed', n, 200)
    classification(k, S)
    node(k)


def slots_of(k, S, lang, w):
    """grammar of what the worker carries, after a scan with that backend language (and before, for rust)"""
    out = {}
    n = 0
    s = S.case('Initialized')

    def at(t):
        while t.k == 'bool' and isinstance(t.a[0], tm.T):
            t = t.a[0]
        if t.k == 'call' and t.a[0] == 'bad_query':
            return False
        if t.k == 'eq':
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if a.k == 'str' and b is lang:
                    return a.a[0] == w
        r = rules.trees_have(S, t)
        return r if r is not None else False if failure(t) else None
    for (root, path), (lv, init, step) in S.state.items():
        own = [x for x in path if x[0] == 'f' and x[1].split('::')[-1] in ('Parsers', 'Queries')]
        if not own:
            continue
        name = '.'.join(tm.FN[x[1]][x[2]][x[3]] for x in own)
        n += 1
        W = World(S, S.a, {lv: {'kept'}}, w, lambda x: rules.assume_by(x, at, {}))
        after = W.of(s.on(step))
        before = W.of(init)
        out[lv] = {w}
        k.ob('switch:%s:%s' % (w, name), after == {w}, 'a scan for %s makes %s that of %s' % (w, name, w), 'Initialized', str(sorted(after)))
        k.ob('start:%s' % name, before == {'rust'}, 'before any scan %s is that of rust' % name, 'worker', str(sorted(before)))
        for v in S.variants:
            if v != 'Initialized':
                x = S.case(v).on(step)
                k.ob('kept:%s:%s' % (v, name), x is lv, '%s switches no language' % v, v, rules.flat(x))
    k.floor('switched parts', n, 3)
    return out


def failure(t):
    return t.k == 'exists' and tm.contains(t, lambda u: u.k == 'call' and 'WalkDir' in str(u.a[0]))


def is_query(t):
    return t.k == 'call' and t.a[0] == 'query' or t.k == 'lv' and any(x[0] == 'f' and x[1].split('::')[-1] == 'Queries' for x in t.a[2]) \
        or t.k == 'f' and str(t.a[1]).split('::')[-1] == 'Queries' or t.k == 'gv' and all(is_query(v) for g, v in t.a if v.k != 'undef')


def message(k, S, W, v, ext, w):
    s = S.scene(v, ext)
    n = 0
    want = None if ext not in rules.EXTS else {'jinja2'} if rules.EXTS[ext] == 'Template' else {w}
    tag = '%s:%s:%s' % (w, v, ext)
    # queries
    for e in s.events:
        if e.kind != 'call' or not e.name.startswith('fn:'):
            continue
        short = e.name.split('::')[-1]
        qs = [a for a in e.args if is_query(W.fix(a))]
        ts = [a for a in e.args if not is_query(W.fix(a)) and tree_like(W, a)]
        if not k.ob('query:known:%s:%s' % (tag, short), len(qs) == 1 and len(ts) == 1, 'the query and the tree of %s are known' % short, e.span,
                    str([rules.flat(s.nice(a), 80) for a in e.args])):
            continue
        n += 1
        q, t = W.of(qs[0]), W.of(ts[0])
        k.ob('query:%s:%s' % (tag, short), q == t and len(q) == 1 and '?' not in q, '%s runs a query over a tree of the same grammar (backend %s)' % (short, w), e.span,
             'query %s, tree %s' % (sorted(q), sorted(t)))
        k.ob('query:own:%s:%s' % (tag, short), want is not None and t == want, 'a %s file is searched as what its extension stands for (backend %s)' % (ext, w), e.span, str(sorted(t)))
    # trees
    b, a = s.before('trees'), s.after('trees')
    if a is not None and a is not b:
        es = list(stores.edits(S, a, lambda t: t is b, on=s.on))
        for e in es:
            if e.op != 'put' or e.cond is FALSE:
                continue
            if e.val.k == 'emap':
                continue
            lang = W.lang(e.key)

            def isb(t):
                return t.k == 'f' and t.a[0].k == 'get' and t is tm.payload(t.a[0]) or t.k == 'emap'
            for d in stores.edits(S, e.val, isb, on=s.on):
                if d.op != 'put' or AND(e.cond, d.cond) is FALSE:
                    continue
                n += 1
                g = W.of(d.val)
                k.ob('tree:%s' % tag, g == lang and '?' not in g, 'a tree is stored under the language of its grammar (backend %s)' % w, v, 'tree %s stored under %s' % (sorted(g), sorted(lang)))
                k.ob('tree:own:%s' % tag, want is not None and lang == want, 'a %s file is parsed as what its extension stands for (backend %s)' % (ext, w), v, str(sorted(lang)))
    # reads of the tree store
    for e in s.events:
        for x in list(e.args) + ([e.res] if isinstance(e.res, tm.T) else []):
            for t in tm.subterms(x):
                if t.k == 'get' and t.a[0] is b and t.a[1].k == 'agg' and v in ('DidOpen', 'DidSave', 'DidChange', 'Completion', 'Hover', 'GoToDefinition', 'CodeAction'):
                    g = W.lang(t.a[1])
                    if want is not None and e.name.startswith('fn:'):
                        n += 1
                        k.ob('look:%s' % tag, g == want, 'a %s file is looked up among the trees of its own language' % ext, e.span, str(sorted(g)))
    return n


def tree_like(W, a):
    a = W.fix(a)
    if a.k == 'gv':
        return any(tree_like(W, v) for g, v in a.a)
    if a.k == 'call' and a.a[0] in ('parse', 'edited'):
        return True
    if a.k == 'f' and tm.payload(a.a[0]) is a:
        t = a.a[0]
        if t.k == 'call' and t.a[0] == 'parse':
            return True
        if t.k == 'get' and ('trees' in rules.flat(t, 4000) or rules.is_treemap(W.S, root(t.a[0]))):
            return True
        if t.k == 'gv':
            return tree_like(W, t)
    if a.k == 'lv' and a in W.a.lvinfo:
        return tree_like(W, W.a.lvinfo[a][0])
    return False


def root(m):
    while m.k in ('get', 'f'):
        m = m.a[0]
    return m


def classification(k, S):
    """files that are neither are ignored, files that are either are not"""
    for ext in list(rules.EXTS) + list(IGNORED):
        known = ext in rules.EXTS
        for v in ('DidOpen', 'DidChange', 'DidSave'):
            s = S.scene(v, ext)
            qs = [e for e in s.events if e.kind == 'call' and e.name.startswith('fn:')]
            if known and v != 'DidChange':
                k.ob('used:%s:%s' % (v, ext), qs, 'a %s file is analysed' % ext, v)
            elif not known:
                k.ob('ignored:%s:%s' % (v, ext), not qs, 'a file with extension %r is not analysed' % ext, v, str([e.name for e in qs]))
                for st in ('trees', 'variables'):
                    x, y = s.before(st), s.after(st)
                    k.ob('untouched:%s:%s:%s' % (v, ext, st), y is None or y is x or not stores.edits(S, y, lambda t: t is x, on=s.on), 'a file with extension %r leaves no %s' % (ext, st), v, rules.flat(y or tm.UNDEF))
        s = S.scene('Initialized', ext)
        st = S.store('documents')
        docs = s.after('documents')
        puts = walked(S, s, docs)
        k.ob('scan:%s' % ext, bool(puts) == known, 'a scan loads a %s file exactly if it is a template or backend file' % ext, 'Initialized', '%d' % len(puts))


def walked(S, s, x):
    out, seen = [], set()

    def go(t):
        t = s.on(t)
        if t in seen:
            return
        seen.add(t)
        for u in tm.subterms(t):
            if u.k == 'put' and tm.contains(u, lambda z: z.k == 'call' and 'WalkDir' in str(z.a[0])):
                out.append(u)
            if u.k == 'mfor' and tm.contains(u, lambda z: z.k == 'call' and 'WalkDir' in str(z.a[0])):
                if s.on(u.a[2]) is not FALSE:
                    out.append(u)
            if u.k == 'lv' and u in S.a.lvinfo and u is not S.store('documents')[0]:
                go(S.a.lvinfo[u][0])
                go(S.a.lvinfo[u][1])
    go(x)
    return out


# ---------------------------------------------------------------- node
def node(k):
    N = k.node()
    v = N.exports['new'][0]
    adt = [p for p in tm.FN if p.split('::')[-1] == 'LspFiles'][0]
    files = rules.aggs(v, 'LspFiles')
    if not k.ob('node:new', len(files) == 1, 'the binding makes its document store', 'new', str(len(files))):
        return
    names = tm.FN[adt][0]
    self_ = tm.sym('self')
    holder = [x for x in rules.aggs(v, v.a[0].split('::')[-1])][0] if v.k == 'agg' else None
    i = next(j for j, f in enumerate(tm.FN[v.a[0]][0]) if tm.field(v, v.a[0], 0, j) is files[0])
    mine = tm.field(self_, v.a[0], 0, i)
    W0 = World(k.S0 if hasattr(k, 'S0') else N, N, {}, 'python', lambda x: x)
    slots = {}
    for part in ('parsers', 'queries'):
        x = tm.field(files[0], adt, 0, names.index(part))
        y = tm.field(mine, adt, 0, names.index(part))
        sub = x.a[0]
        for j, f in enumerate(tm.FN[sub][0]):
            g = nofix(N).of(tm.field(x, sub, 0, j))
            slots[tm.field(y, sub, 0, j)] = g
            want = {'jinja2'} if 'jinja' in f else {'python'}
            k.ob('node:start:' + f, g == want, 'the binding starts with %s of %s' % (f, sorted(want)), 'new', str(sorted(g)))
    k.floor('node: parsers and queries', len(slots), 9)
    S = k.server()
    n = 0
    for m, (val, cond, st, evs, key) in sorted(N.exports.items()):
        me = st.get(('arg', 0)) if st else None
        if me is not None:
            for part in ('parsers', 'queries'):
                y = tm.field(mine, adt, 0, names.index(part))
                a = tm.field(tm.field(me, v.a[0], 0, i), adt, 0, names.index(part))
                ok = a is y or all(z is y for g, z in tm.cases(a)) or all(tm.field(a, p, 0, j) is tm.field(y, p, 0, j) for p in [q for q in tm.FN if q.split('::')[-1] == part.capitalize()] for j in range(len(tm.FN[p][0])))
                k.ob('node:kept:%s:%s' % (m, part), ok, '%s keeps the %s' % (m, part), m, rules.flat(a))
        for ext, given in [(x, y) for x in rules.EXTS for y in (True, False)]:
            f = rules.both(rules.ext_is(ext), ext_arg(ext if given else None))
            memo = {}
            W = World(S, N, slots, 'python', lambda x: rules.assume_by(x, f, memo))
            seen = set()
            for e in evs:
                if e.kind != 'call' or not e.name.startswith('fn:') or rules.assume_by(e.cond, f, memo) is FALSE:
                    continue
                qs = [a for a in e.args if isinstance(a, tm.T) and is_query(W.fix(a))]
                ts = [a for a in e.args if isinstance(a, tm.T) and not is_query(W.fix(a)) and tree_like(W, a)]
                short = e.name.split('::')[-1]
                if not k.ob('node:query:known:%s:%s' % (m, short), len(qs) == 1 and len(ts) == 1, 'the query and the tree of %s are known' % short, m, str([rules.flat(a, 80) for a in e.args])):
                    continue
                q, t = W.of(qs[0]), W.of(ts[0])
                n += 1
                k.ob('node:query:%s:%s:%s' % (m, ext, short), q == t and len(q) == 1 and '?' not in q, '%s: %s runs a query over a tree of the same grammar' % (m, short), e.span, 'query %s, tree %s' % (sorted(q), sorted(t)))
    k.floor('node: queries followed', n, 10)


def ext_arg(ext):
    """the extension handed in is this one (None: one with a dot in it, equal to no constant)"""
    def f(t):
        if t.k == 'eq':
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if a.k == 'str' and b.k == 'sym':
                    return a.a[0] == ext
        return None
    return f


def nofix(N):
    return World(None, N, {}, 'python', lambda x: x)
