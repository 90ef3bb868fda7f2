"""C01: nothing the editor, the files or the configuration contain makes the server panic."""
import re
import arith
import query
import rules
import steps
import terms as tm
import facts
from props import c05

RULE = ('Every operation that can panic (unwrap and expect, indexing and slicing, subtraction and division checks, explicit '
        'panics, operations of ropes, vectors, strings, channels and clocks that refuse some arguments) reached from start-up, '
        'the request handlers, the worker or the diagnostics task is an obligation: the condition under which it panics, '
        'as a formula over what flows to it, must be unsatisfiable given the linear facts about text measures, the invariant '
        'that the tree store has every language, the query texts being queries of their grammars (checked against the '
        'grammar descriptions), and the index of a capture being one of its own query.  The six extractors are analysed '
        'on their own, and may read the text of a node only from the text their query ran over, which C05 shows to be the '
        'text of the tree; C05\'s obligations are therefore part of this property.')


def find(t, name):
    return [x for x in tm.subterms(t) if x.k == 'call' and x.a[0] == name]


class Lemmas(object):
    def __init__(self, k, prog, trees):
        self.k = k
        self.trees = trees
        self.langs = {}
        self.bad = {}
        self.used = set()

    def __call__(self, t):
        v = self.trees(t) if self.trees else None
        if v is not None:
            self.used.add('trees')
            return v
        if t.k == 'bool' and t.a[0].k == 'call':
            c = t.a[0]
            if c.a[0] == 'bad_query':
                return self.query(c)
            if c.a[0] == 'other_text':
                src = [x for x in tm.subterms(c.a[1]) if x.k == 'call' and x.a[0] in ('matches', 'captures')]
                if src and all(x.a[3] is c.a[2] for x in src):
                    self.used.add('text')
                    return False
                return None
            if c.a[0] == 'overflow':
                return None if any(from_editor(a) for a in c.a[1:]) else False
            if c.a[0] == 'bad_url' and fine_url(c.a[1]):
                return False
        if t.k == 'isv' and t.a[0].k == 'call' and t.a[0].a[0] == 'Builder::build':
            # the runtime itself is made before the first message
            self.used.add('runtime')
            return t.a[1] == 0
        if t.k == 'gt0':
            return self.index(t.a[0])
        return None

    def query(self, c):
        if c not in self.bad:
            m = re.search(r'tree_sitter_\w+', tm.show(c.a[1], 6))
            n = m.group(0) if m else ''
            if n and n not in self.langs:
                self.langs[n] = query.language(n)
            if c.a[2].k != 'str' or self.langs.get(n) is None:
                self.bad[c] = ['the query text or the grammar is not known']
            else:
                self.bad[c] = query.problems(c.a[2].a[0], self.langs[n])
        return None if self.bad[c] else False

    def index(self, l):
        """len(capture names of q) - index of a capture of q > 0"""
        if l.k == 'gv':
            return None
        c, items = tm.lin_of(l)
        d = dict(items)
        if len(d) != 2 or c < 0:
            return None
        size = [t for t, n in d.items() if n == 1 and t.k == 'len' and t.a[0].k == 'call' and str(t.a[0].a[0]).endswith('capture_names')]
        idx = [t for t, n in d.items() if n == -1 and capture_index(t)]
        if len(size) == 1 and len(idx) == 1:
            q = size[0].a[0].a[1]
            if sources(idx[0]) == {q}:
                self.used.add('capture')
                return True
        return None


def capture_index(t):
    return t.k == 'f' and t.a[1].split('::')[-1] == 'QueryCapture' and tm.FN[t.a[1]][0][t.a[3]] == 'index'


def sources(t):
    """the queries whose matches a capture may stem from"""
    out = set()
    for x in tm.subterms(t):
        if x.k == 'call' and str(x.a[0]) in ('matches', 'captures', 'QueryCursor::matches', 'QueryCursor::captures'):
            out.add(x.a[1])
    return out


def from_editor(t):
    """a number an editor may choose freely"""
    return tm.contains(t, lambda x: x.k == 'sym' or (x.k == 'f' and x.a[1] == 'pos' and x.a[0].k in ('f', 'elem')))


def fine_url(t):
    """a file URL with a fixed, complete beginning"""
    if t.k == 'cat' or (t.k == 'call' and t.a[0] == 'cat'):
        p = t.a[0] if t.k == 'cat' else t.a[1]
        while isinstance(p, tuple):
            p = p[0]
        return isinstance(p, tm.T) and p.k == 'str' and p.a[0].startswith('file:///')
    return t.k == 'str' and t.a[0].startswith('file:///')


def where(e):
    s = e.span
    return '%s (%s)' % (facts.demangle(e.fn()) if hasattr(facts, 'demangle') else e.fn(), s)


def short(fn):
    return '::'.join(p for p in fn.split('::') if not p.startswith('{'))[-60:]


def events(k, kind, evs, pred, fix=None):
    """an obligation for each operation that can panic"""
    seen = {}
    n = 0
    for e in evs:
        if e.kind != 'panic':
            continue
        n += 1
        key = (short(e.fn()), e.name)
        ok = holds(e, pred)
        seen.setdefault(key, []).append((ok, e))
    for (fn, op), l in sorted(seen.items()):
        places = {}
        for ok, e in l:
            p = places.setdefault(str(e.span), [True, e])
            if not ok and p[0]:
                places[str(e.span)] = [False, e]
        for i, (s, (ok, e)) in enumerate(sorted(places.items())):
            k.ob('%s:%s:%s:%d' % (kind, fn, op, i), ok, 'this operation (%s) does not panic' % op, where(e),
                 'it panics when ' + why(e, pred) if not ok else '')
    return n


def holds(e, pred):
    """the operation is only reached where it does not panic"""
    # inside a loop over something, that something is not empty
    srcs = set()
    for b, _ in e.loops:
        if isinstance(b, tm.T) and b.k == 'elem':
            srcs.add(b.a[0])
    f = arith.Facts()
    for s in srcs:
        if s.k != 'gv':
            f.le(tm.I(1), tm.length(s))

    def p(t):
        if t.k == 'empty' and t.a[0] in srcs:
            return False
        return pred(t)
    return arith.discharge(e.cond, f, p)


def why(e, pred):
    import bdd
    x = arith.simplify(e.cond, arith.Facts(), pred)
    try:
        ts = [tm.show(t, 6)[:160] for t in arith.atoms_of(x)]
    except Exception:
        ts = []
    return '; '.join(tm.show(a, 5)[:160] for a in e.args if isinstance(a, tm.T)) + ' | depends on ' + ', '.join(ts[:5])


def extractor_keys(S):
    out = set()
    for e in S.events:
        for x in list(e.args) + [e.cond]:
            for t in tm.subterms(x):
                if t.k == 'call' and str(t.a[0]).startswith('fn:'):
                    out.add(t.a[0][3:])
    for (lv, init, step) in S.state.values():
        for x in (init, step):
            for t in tm.subterms(x):
                if t.k == 'call' and str(t.a[0]).startswith('fn:'):
                    out.add(t.a[0][3:])
    return out


class Sub(object):
    """the obligations of another property under a prefix"""

    def __init__(self, k, prefix):
        self.k = k
        self.prefix = prefix

    def ob(self, key, ok, what, where='', detail=''):
        return self.k.ob(self.prefix + key, ok, what, where, detail)

    def floor(self, what, n, least):
        return self.k.floor(self.prefix + what, n, least)

    def __getattr__(self, n):
        return getattr(self.k, n)


def check(k):
    S = k.server()
    rules.trees_invariant(k, S)
    lem = Lemmas(k, S.prog, lambda t: rules.trees_have(S, t))
    n = events(k, 'panic', S.events, lem)
    for i, (q, ps) in enumerate(lem.bad.items()):
        k.ob('query:%s:%d' % (rules.flat(q.a[1], 40), i), not ps, 'the query text is a query of its grammar', '', '; '.join(ps[:3]))
    k.floor('query texts', len(lem.bad), 9)
    k.floor('operations that can panic', n, 12)
    keys = sorted(extractor_keys(S))
    k.floor('extractors', len(keys), 6)
    m = 0
    for key in keys:
        X = steps.Extractor(S.prog, key)
        name = key.split('::')[-1]
        m += events(k, 'extract:' + name, X.a.events, Lemmas(k, S.prog, None))
    k.floor('operations in extractors', m, 20)
    c05.check(Sub(k, 'tree:'))
