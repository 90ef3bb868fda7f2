"""C32: node binding: links mark exactly the expressions that spell a stored hint."""
import query
import rules
import steps
import terms as tm
from bdd import TRUE, FALSE, AND, NOT, ATOMS, atom, cof, sup
from props import c10, c26, c31
from query import Node as N

RULE = ('The list of links an added document yields is derived as a function of the arguments and of the hints held: for '
        'a Jinja document it must go over what the extractor of objects finds in the text that was added (read with the '
        'tree of that text, wanting every object), for Python over what the extractor of attribute chains finds there, and '
        'over the hints stored under the default name; a link is there exactly if the parts of the hint are the dotted '
        'parts of the expression, all of them in order; it spans the expression from its first part to its last, moved by '
        'the offset, says its name and that it is a link.  Expressions and hints are taken apart alike.  For Python the '
        'syntax query text and the transfer functions of the extractor are composed along the captures of chains of '
        'attributes laid out on one line and several: what comes out must be each chain once, with its names joined by dots, '
        'from the start of the first to the end of the last, and nothing else.')

# the extensions expressions are looked for in
EXTS = ('jinja', 'py')


def chain(*names):
    """an attribute chain and its gaps"""
    n = N('identifier', text=names[0])
    for x in names[1:]:
        n = N('attribute', n, N('.', text='.'), N('identifier', text=x))
    return n


def call(f, *args):
    xs = []
    for i, a in enumerate(args):
        xs += ([N(',', text=',')] if i else []) + [a]
    return N('call', f, N('argument_list', N('(', text='('), *xs, N(')', text=')'), field='arguments'))


def assign(a, b):
    return N('assignment', a, N('=', text='='), b)


def ident(x):
    return N('identifier', text=x)


def stmt(x):
    return N('expression_statement', x)


SHAPES = [
    ('two', 'an attribute', lambda: [stmt(chain('$a', '$b'))], ['$a.$b']),
    ('three', 'an attribute of an attribute', lambda: [stmt(chain('$a', '$b', '$c'))], ['$a.$b.$c']),
    ('four', 'a chain of four names', lambda: [stmt(chain('$a', '$b', '$c', '$d'))], ['$a.$b.$c.$d']),
    ('same', 'a chain of equal names', lambda: [stmt(chain('$a', '$a'))], ['$a.$a']),
    ('name', 'a plain name', lambda: [stmt(ident('$a'))], []),
    ('assign', 'an assignment', lambda: [stmt(assign(ident('$x'), chain('$a', '$b')))], ['$a.$b']),
    ('assign-both', 'an assignment of an attribute to an attribute', lambda: [stmt(assign(chain('$a', '$b'), chain('$c', '$d', '$e')))], ['$a.$b', '$c.$d.$e']),
    ('sum', 'an operator', lambda: [stmt(N('binary_operator', chain('$a', '$b'), N('+', text='+'), chain('$c', '$d')))], ['$a.$b', '$c.$d']),
    ('arg', 'an argument', lambda: [stmt(call(ident('$f'), chain('$a', '$b')))], ['$a.$b']),
    ('args', 'arguments', lambda: [stmt(call(ident('$f'), chain('$a', '$b', '$c'), ident('$x'), chain('$d', '$e')))], ['$a.$b.$c', '$d.$e']),
    ('method', 'a call of a method', lambda: [stmt(call(chain('$a', '$b', '$c'), ident('$x')))], ['$a.$b.$c']),
    ('method-arg', 'an argument of a method', lambda: [stmt(call(chain('$a', '$b'), chain('$c', '$d')))], ['$a.$b', '$c.$d']),
    ('call', 'a call', lambda: [stmt(call(ident('$f'), ident('$x')))], []),
    ('keyword', 'a keyword argument', lambda: [stmt(call(ident('$f'), N('keyword_argument', ident('$k'), N('=', text='='), chain('$a', '$b'))))], ['$a.$b']),
    ('lines', 'chains in several statements', lambda: [stmt(chain('$a', '$b')), stmt(chain('$c', '$d')), stmt(assign(ident('$x'), chain('$a', '$b')))], ['$a.$b', '$c.$d', '$a.$b']),
    ('string', 'a string', lambda: [stmt(N('string', text='"a.b"'))], []),
]


class Laid(object):
    """statements put into a text, one to a line"""

    def __init__(self, stmts, at, wrap):
        self.row, self.col = at
        self.wrap = wrap
        self.places = {}
        for i, s in enumerate(stmts):
            if i:
                self.row, self.col = self.row + 1, 0
            self.put(s)
        self.root = N('module', *stmts)
        self.places[id(self.root)] = (at, (self.row, self.col))
        self.names = {id(n): 'n%d' % i for i, n in enumerate(self.root.walk())}
        self.tree = steps.Tree(self.root, self.names, self.places)

    def put(self, n):
        start = self.row, self.col
        if n.children:
            for c in n.children:
                self.put(c)
        else:
            if self.wrap and n.kind in ('.', ','):
                self.row, self.col = self.row + 1, 4
                if start == (0, 0):
                    start = self.row, self.col
            elif n.kind in ('=', '+'):
                self.col += 1
            self.col += len(n.text.replace('$', ''))
            if n.kind in ('=', '+'):
                self.col += 1
        self.places[id(n)] = start, (self.row, self.col)


def first(n):
    while n.children:
        n = n.children[0]
    return n


def wanted(doc):
    """(name, start, end) of the chains of a document"""
    out = []

    def walk(n, inside):
        if n.kind == 'attribute' and not inside:
            ids = [c for c in n.walk() if c.kind == 'identifier']
            out.append(('.'.join(c.text for c in ids), doc.places[id(ids[0])][0], doc.places[id(ids[-1])][1]))
        for c in n.children:
            walk(c, n.kind == 'attribute')
    walk(doc.root, False)
    return sorted(out)


def entries(m):
    """the entries of a map that is known"""
    out = {}
    puts = []
    while m.k == 'put':
        puts.append((m.a[1], m.a[2]))
        m = m.a[0]
    if m.k != 'emap':
        return None
    for key, v in reversed(puts):
        out[key] = v
    return out


def members(v):
    """the members of a sequence made of the members of known ones"""
    if v.k == 'it':
        v = v.a[0]
    l = tm.literal(v)
    if l is not None or v.k != 'seq':
        return l
    out = []
    for bs, g, y in listed(v) or [((None, None), TRUE, v)]:
        src = members(bs[0].a[0]) if len(bs) == 1 and bs[0].k == 'elem' else [None] if not bs else None
        if g is not TRUE or src is None:
            return None
        out += [tm.subst(y, {bs[0]: x}) if bs else y for x in src]
    return out


def joined(t):
    """the text of names and dots put together"""
    if t.k == 'call' and t.a[0] == 'cat':
        l = [joined(x) for x in t.a[1:]]
        return None if None in l else ''.join(l)
    if t.k == 'cat':
        l = [joined(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
        return None if None in l else ''.join(l)
    if t.k == 'call' and t.a[0] == 'join' and len(t.a) == 3 and t.a[2].k == 'str' and members(t.a[1]) is not None:
        l = [joined(x) for x in members(t.a[1])]
        return None if None in l else t.a[2].a[0].join(l)
    return c31.plain(t)


def found(x, st, given):
    """[(name, start, end)] of what an extractor of chains returns in a state"""
    env = dict(st)
    v = x.settle(x.to_end(x.value), env, x.closing(x.outer or x.state, st))
    if v.k == 'it':
        v = v.a[0]
    if tm.literal(v) is not None:
        items = tm.literal(v)
    else:
        items = []
        if v.k != 'seq':
            return None, v
        for p in v.a:
            if not (isinstance(p, tuple) and p[0] == 'for' and len(p[1]) == 1 and p[2] is TRUE and p[1][0].k == 'elem'):
                return None, v
            b = p[1][0]
            m, what = (b.a[0].a[1], b.a[0].a[0]) if b.a[0].k == 'call' and b.a[0].a[0] in ('entries', 'keys', 'values') else (b.a[0], 'entries')
            es = entries(m)
            if es is None:
                return None, v
            for key, l in es.items():
                items.append(one(x, env, p[3], b, {'entries': tm.agg('()', 0, key, l), 'keys': key, 'values': l}[what]))
    items = [rules.rewrite(y, given) for y in items]
    out = []
    for y in items:
        if y.k != 'agg' or y.a[0] not in tm.FN:
            return None, v
        f = dict(zip(tm.FN[y.a[0]][y.a[1]], y.a[2:]))
        pl = c31.place(f['start'], f['end']) if 'start' in f and 'end' in f else None
        out.append((joined(f['field']) if 'field' in f else None, pl[0] if pl else None, pl[1] if pl else None))
    return out, v


def one(x, env, v, b, pair):
    """the value for one entry of a map"""
    inner = {b: (0, pair, None)}
    for lv, (init, step, bs) in x.a.lvinfo.items():
        for t in [init, step] + list(bs):
            for e in tm.subterms(t):
                if e.k == 'elem' and e not in inner and x.settle(e.a[0], env) is b.a[0]:
                    inner[e] = (0, pair, None)
    return x.settle(v, env, inner)


def layouts():
    return [('line', (0, 0), False), ('line-later', (5, 8), False), ('lines', (2, 4), True)]


def python(k, prog, key, texts, given):
    """given: what the extractor is given for the parameters that are numbers"""
    try:
        x = steps.Extractor(prog, key)
    except steps.Missing as e:
        k.ob('chains', False, 'the extractor can be analysed', key, str(e))
        return
    k.ob('chains:query', bool(texts), 'the extractor is given a built-in query', key)
    n = 0
    for text in sorted(texts):
        try:
            q = query.Query(text)
        except query.Bad as e:
            k.ob('chains:read', False, 'the syntax query can be read', key, str(e))
            continue
        for lay, at, wrap in layouts():
            for name, what, make, want in SHAPES:
                n += 1
                doc = Laid(make(), at, wrap)
                w = wanted(doc)
                if sorted(x for x, _, _ in w) != sorted(want):
                    raise rules.Missing('what is expected of ' + name)
                tag = 'chain:%s:%s' % (lay, name)
                try:
                    st = x.run(q.matches(doc.root), doc.names, (), doc.tree, c31.names_differ)
                except (query.Bad, steps.Stopped) as e:
                    k.ob(tag, False, 'all of %s is looked at' % what, key, str(e))
                    continue
                got, v = found(x, st, given)
                k.ob(tag, got is not None and None not in [a for a, _, _ in got] and sorted(got) == w, '%s is read as %s' % (what, ', '.join(want).replace('$', '') or 'nothing'), key,
                     'found %s' % (got if got is not None else rules.flat(v, 400)))
    k.floor('chains of attributes', n, 40)


def parsed(t):
    """URLs are read, and documents parse"""
    if t.k == 'isv' and t.a[0].k == 'call' and t.a[0].a[0] == 'parse' and t.a[1] == 1:
        return True
    return None


def listed(v):
    """[(binders, condition, value)] of a list; None if it is something else"""
    if v.k == 'it':
        v = v.a[0]
    if v.k != 'seq':
        return None
    out = []
    for p in v.a:
        if isinstance(p, tuple) and p[0] == 'for':
            out.append((list(p[1]), p[2], p[3]))
        elif isinstance(p, tuple) and p[0] == 'one':
            out.append(([], p[1] if not isinstance(p[1], tm.T) else TRUE, p[-1]))
        else:
            return None
    return out


def extracted(t):
    """the call of an extractor this is part of the result of"""
    while t.k == 'f':
        t = t.a[0]
    return t if t.k == 'call' and str(t.a[0]).startswith('fn:') else None


def same_parts(t, ext, el, name):
    """t is the sequence of the dotted parts of the expression"""
    if ext == 'py':
        return t.k == 'call' and t.a[0] in ('split', 'str::split') and t.a[1] is rules.sel(el, (name, 'field')) and t.a[2] is tm.S('.')
    l = listed(t)
    if l is None or len(l) != 2:
        return False
    (b0, g0, v0), (b1, g1, v1) = l
    fs = rules.sel(el, (name, 'fields'))
    return not b0 and g0 is TRUE and v0 is rules.sel(el, (name, 'name')) and len(b1) == 1 and g1 is TRUE and b1[0].k == 'elem' and b1[0].a[0] is fs and v1 is tm.field(b1[0], '()', 0, 0)


def ends_of(ext, el, name):
    """what a link of the expression spans: (start, [(condition, end)])"""
    if ext == 'py':
        return rules.sel(el, (name, 'start')), [(TRUE, rules.sel(el, (name, 'end')))]
    loc = rules.sel(el, (name, 'location'))
    fs = rules.sel(el, (name, 'fields'))
    e = tm.empty(fs)
    last = tm.field(tm.field(tm.mk('call', 'last', fs), '()', 0, 1), '()', 0, 1)
    return tm.field(loc, '()', 0, 0), [(e, tm.field(loc, '()', 0, 1)), (NOT(e), last)]


def at(t, pos, line):
    """t is this position with the offset added"""
    l, c = tm.field(t, 'pos', 0, 0), tm.field(t, 'pos', 0, 1)
    return l is tm.add(tm.field(pos, 'pos', 0, 0), line) and c is tm.field(pos, 'pos', 0, 1)


def texts_of(NB, q, grammar):
    """the texts a query is made of"""
    out = c10.queries(NB, q)
    return out[grammar] if set(out) == {grammar} else set()


KINDS = {'jinja': 'JinjaObject', 'py': 'PythonIdentifier'}


def check(k):
    NB = k.node()
    D = c26.State(NB)
    if not k.ob('export:add_one', 'add_one' in NB.exports, 'the binding offers add_one', D.adt):
        return
    v, c, st, ev, key = NB.exports['add_one']
    lem = c26.lemma(NB, D, c26.trees_some(D))
    me = tm.sym('self')
    stored = tm.mget(D.part(me, 'action_objects'), tm.S('temp'))
    HAVE = atom(tm.mk('isv', stored, 1))
    n = 0
    for ext in EXTS:
        pred = rules.both(rules.ext_is(ext), parsed, lem)
        m = {tm.sym('ext'): tm.S(ext)}
        x = rules.assume_by(rules.rewrite(v, m), pred)
        after = rules.assume_by(rules.rewrite(st[('arg', 0)], m), pred)
        docs = D.part(after, 'lsp_files.documents')
        text = c26.text_in(docs.a[2]) if docs.k == 'put' else None
        k.ob('text:' + ext, text is not None, 'the text of the document is stored', key, rules.flat(docs))
        l = listed(x)
        if not k.ob('links:' + ext, l is not None and len(l) == 1, 'the links of a document are one list', key, rules.flat(x)):
            continue
        bs, g, y = l[0]
        hs = [b for b in bs if b.k == 'elem' and b.a[0] is tm.payload(stored)]
        os = [b for b in bs if b not in hs]
        if not hs:
            # whether there is one such hint
            ex = [t for t in (ATOMS[i] for i in sup(g)) if t.k == 'exists']
            if len(ex) == 1 and len(ex[0].a[0]) == 1 and ex[0].a[0][0].k == 'elem' and ex[0].a[0][0].a[0] is tm.payload(stored):
                hs = [ex[0].a[0][0]]
                g = cof(g, [i for i in sup(g) if ATOMS[i] is ex[0]][0], 1) if rules.implies(g, atom(ex[0])) else FALSE
                g = AND(g, ex[0].a[1])
        if not k.ob('over:' + ext, len(hs) == 1 and len(os) == 1 and os[0].k == 'elem', 'links are looked for among all expressions and all stored hints', key, '; '.join(rules.flat(b, 200) for b in bs)):
            continue
        n += 1
        h, o = hs[0], os[0]
        src = extracted(o.a[0])
        name = KINDS[ext]
        if not k.ob('expressions:' + ext, src is not None, 'the expressions are those the extractor finds', key, rules.flat(o, 300)):
            continue
        # what it is given
        args = src.a[1:]
        ts = [a for a in args if a is text]
        k.ob('given:text:' + ext, len(ts) == 1, 'the expressions are looked for in the text that was added', key, rules.flat(src, 400))
        trees = [u for a in args for u in tm.subterms(a) if u.k == 'call' and u.a[0] == 'parse']
        k.ob('given:tree:' + ext, bool(trees) and all(u.a[2] is text for u in trees), 'the tree is the tree of that text', key, rules.flat(src, 400))
        if ext == 'jinja':
            k.ob('given:all:' + ext, any(tm.nb(a) is TRUE for a in args if tm.isbool(a) or a.k == 'b'), 'every expression is wanted', key, rules.flat(src, 400))
        # when
        eqs = [t for t in (ATOMS[i] for i in sup(g)) if t.k == 'eq']
        ok = len(eqs) == 1
        if ok:
            f = rules.sel(h, ('ActionObject', 'fields'))
            p, q = eqs[0].a[:2]
            other = q if p is f else p if q is f else None
            ok = other is not None and same_parts(other, ext, o, name)
            ok = ok and AND(g, NOT(AND(HAVE, atom(eqs[0])))) is FALSE and AND(AND(HAVE, atom(eqs[0])), NOT(g)) is FALSE
        k.ob('when:' + ext, ok, 'an expression is linked exactly if its dotted parts are those of a stored hint', key, tm.shown(g, 4)[:600])
        # what
        sel = lambda f: rules.sel(y, ('JsIdentifier', f))
        s, es = ends_of(ext, o, name)
        line = tm.sym('line')
        k.ob('start:' + ext, at(sel('start'), s, line), 'a link starts where its expression starts', key, rules.flat(sel('start'), 300))
        bad = [rules.flat(e, 200) for g2, e in es if not at(rules.deep(sel('end'), AND(g, g2)), e, line)]
        k.ob('end:' + ext, not bad, 'a link ends where the last part of its expression ends', key, rules.flat(sel('end'), 400))
        k.ob('name:' + ext, sel('name') is rules.sel(o, (name, 'name' if ext == 'jinja' else 'field')), 'a link has the name of its expression', key, rules.flat(sel('name'), 200))
        t = sel('identifier_type')
        k.ob('kind:' + ext, t.k == 'agg' and tm.VN[t.a[0]][t.a[1]] == 'Link', 'a link is a link', key, rules.flat(t))
        k.ob('error:' + ext, sel('error') is tm.NONE, 'a link is no problem', key, rules.flat(sel('error')))
        if ext == 'py':
            fkey = str(src.a[0])[3:]
            prog = NB.prog
            body = prog.bodies[fkey]
            given, texts = {}, set()
            for i, a in enumerate(args):
                if a.k == 'int':
                    given[tm.sym(body['locals'][i + 1][1])] = a
            python(k, prog, fkey, texts_of(NB, rules.rewrite(args[0], {me: NB.exports['new'][0]}), 'python'), given)
    k.floor('lists of links', n, 2)
