"""C33: node binding: every answer is what was found at that cursor in that very document."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, ATOMS, cof, sup, any_of
from props import c10, c26
from props.c32 import listed

RULE = ('The value of every query of the binding is derived as a function of the files and hints held and of its '
        'arguments, beside the values of the functions of the language core it calls.  Every lookup of a document, of its tree '
        'and of its variables must be under the URL under which adding a document with that name and number stores it.  '
        'Case by case of what the core found (nothing; the context of the cursor; the kind of definition) the '
        'value must be: nothing if it found nothing; for hover the documentation of the filter, or else the description of the '
        'first hint stored under the default name that starts with the name, or else its kind and name; for completion one item '
        'for every item of the list that fits the context, in order, with its own label, and for an incomplete name one '
        'for every name stored under the file name or the default name that contains it, which replaces what was typed; for '
        'definition the one location if it is in that document, or every one of the locations among the hints, '
        'marked as such; for variables one entry for each recorded variable, in order, with its own name and place.')


def core(NB, op, has):
    """the call that finds what the answer is made of: the one that covers the others"""
    out = [e for e in NB.events if e.kind == 'local' and e.ctx and e.ctx[0][:2] == ('export', op) and isinstance(e.res, tm.T) and has(e)]
    out = [e for e in out if all(AND(x.cond, NOT(e.cond)) is FALSE for x in out)]
    if not out:
        raise rules.Missing('where %s finds what it answers' % op)
    return out[-1]


def yields(ty):
    return lambda e: any(True for _ in rules.variants(e.res, ty))


def kind_of(t):
    """a kind of definition, or nothing"""
    def one(y):
        if isinstance(y, tm.T) and y.k == 'gv':
            return any(one(x) for _, x in y.a)
        return isinstance(y, tm.T) and y.k == 'agg' and str(y.a[0]).split('::')[-1] == 'IdentifierType'
    return any(x.k == 'agg' and x.a[0] == tm.OPT and any(one(y) for y in x.a[2:]) for _, x in rules.pruned(t, TRUE))


def list_of(ty):
    def has(e):
        for _, x in rules.pruned(e.res, e.cond):
            l = listed(x.a[2]) if x.k == 'agg' and x.a[0] == tm.OPT and len(x.a) == 3 else None
            if l and any(y.k == 'agg' and str(y.a[0]).split('::')[-1] == ty for _, _, y in l):
                return True
        return False
    return has


def aligned(bs, g, v, other):
    """v and g with the names of binders the other list has"""
    if len(bs) != len(other):
        return None
    m = {}
    for b, o in zip(bs, other):
        if rules.rewrite(b, m) is not o:
            if b.k != 'elem' or o.k != 'elem' or rules.rewrite(b.a[0], m) is not o.a[0]:
                return None
        m[b] = o
    return tm.nb(rules.rewrite(tm.B(g), m)), rules.rewrite(v, m)


def stored(H, there):
    def f(t):
        return there if t.k == 'isv' and t.a[0] is H and t.a[1] == 1 else None
    return f


def held(g, H, there):
    """g with the hints stored or not"""
    a = atom(tm.mk('isv', H, 1))
    return AND(g, a if there else NOT(a))


def none(x):
    return x.k == 'agg' and x.a[0] == tm.OPT and len(x.a) == 2


def cases(v, c):
    """[(condition, value)] of an optional value, None for nothing"""
    for g, x in rules.pruned(v, c):
        if rules.expand(g) is FALSE:
            continue
        x = rules.deep(x, g)
        yield g, None if none(x) or x.k == 'undef' else x.a[2] if x.k == 'agg' and len(x.a) == 3 else x


def keys(k, NB, D):
    """documents are looked up under the URL they are stored under"""
    me = tm.sym('self')
    v, c, st, ev, key = NB.exports['add_one']
    docs = D.part(me, 'lsp_files.documents')
    lem = c26.lemma(NB, D, c26.trees_some(D))

    def parsed(t):
        return True if t.k == 'isv' and t.a[0].k == 'call' and t.a[0].a[0] == 'parse' and t.a[1] == 1 else None
    x = rules.assume_by(rules.rewrite(st[('arg', 0)], {tm.sym('ext'): tm.S('jinja')}), rules.both(rules.ext_is('jinja'), parsed, lem))
    after = D.part(x, 'lsp_files.documents')
    if not k.ob('stored', after.k == 'put' and after.a[0] is docs, 'an added document is stored', key, rules.flat(after)):
        return None
    url = after.a[1]
    trees = D.part(me, 'lsp_files.trees')
    var = D.part(me, 'lsp_files.variables')
    for op in ('hover', 'complete', 'goto_definition'):
        v, c, st, ev, key = NB.exports[op]
        n, bad, vs = 0, set(), set()
        for t in tm.subterms(v):
            if t.k != 'get':
                continue
            m = t.a[0]
            if m is docs or m.k == 'f' and any(y.k == 'get' and y.a[0] is trees for y in tm.subterms(m)) and t.a[1].k != 'agg' and under(m, trees):
                n += 1
                if t.a[1] is not url:
                    bad.add(rules.flat(t.a[1], 160))
            if m is var:
                vs.add(t.a[1])
        k.ob('url:' + op, n > 0 and not bad and (url in vs), '%s looks at the document that was added with that name and number' % op, key, '; '.join(sorted(bad)) or '%d lookups' % n)
    return url


def under(m, trees):
    p = m
    while p.k == 'f':
        p = p.a[0]
    return p.k == 'get' and p.a[0] is trees


def variables(k, NB, D):
    v, c, st, ev, key = NB.exports['get_variables']
    src = tm.mget(D.part(tm.sym('self'), 'lsp_files.variables'), tm.sym('id'))
    have = atom(tm.mk('isv', src, 1))
    n = 0
    for g, x in cases(v, TRUE):
        if x is None:
            k.ob('variables:none', AND(g, have) is FALSE, 'recorded variables are returned', key, tm.shown(g, 3)[:300])
            continue
        n += 1
        k.ob('variables:some', AND(g, NOT(have)) is FALSE, 'variables are returned if some are recorded', key, tm.shown(g, 3)[:300])
        l = listed(x)
        ok = l is not None and len(l) == 1 and len(l[0][0]) == 1 and l[0][1] is TRUE and l[0][0][0].k == 'elem' and l[0][0][0].a[0] is tm.payload(src)
        if not k.ob('variables:each', ok, 'one entry for each variable, in order', key, rules.flat(x, 400)):
            continue
        b, y = l[0][0][0], l[0][2]
        own = lambda f: rules.sel(b, ('Identifier', f))
        got = lambda f: rules.sel(y, ('JsIdentifier', f))
        k.ob('variables:name', got('name') is own('name'), 'an entry has the name of its variable', key, rules.flat(got('name'), 200))
        for f in ('start', 'end'):
            p, o = got(f), own(f)
            ok = tm.field(p, 'pos', 0, 0) is tm.add(tm.field(o, 'pos', 0, 0), tm.sym('line')) and tm.field(p, 'pos', 0, 1) is tm.field(o, 'pos', 0, 1)
            k.ob('variables:' + f, ok, 'an entry has the %s of its variable' % f, key, rules.flat(p, 200))
        t = own('identifier_type')
        k.ob('variables:kind', tm.contains(got('identifier_type'), lambda u: u is t), 'an entry has the kind of its variable', key, rules.flat(got('identifier_type'), 200))
        k.ob('variables:error', got('error') is tm.NONE, 'an entry is no problem', key, rules.flat(got('error'), 200))
    k.floor('cases of variables', n, 1)


def hover(k, NB, D):
    v, c, st, ev, key = NB.exports['hover']
    e = core(NB, 'hover', yields('CompletionType'))
    adt = [p for p in tm.VN if p.split('::')[-1] == 'CompletionType'][0]
    H = tm.mget(D.part(tm.sym('self'), 'actions'), tm.S('temp'))
    n = 0
    for g, r in cases(e.res, e.cond):
        if r is None:
            k.ob('hover:nothing', all(x is None for _, x in cases(v, g)), 'where nothing is found nothing is shown', key)
            continue
        for g1, y in rules.variants(r, 'CompletionType', g):
            kind = tm.VN[adt][y.a[1]]
            what = {nm for _, i in rules.variants(r, 'Identifier', g1) for nm in [rules.deep(rules.sel(i, ('Identifier', 'name')), g1)]}
            if not k.ob('hover:%s:found' % kind, len(what) == 1, 'what is found has one name', key):
                continue
            name = what.pop()
            if kind == 'Filter':
                continue
            d = core(NB, 'hover', lambda e: kind_of(e.res))
            for g2, t in cases(d.res, AND(g1, d.cond)):
                for g3, x in cases(v, g2):
                    n += 1
                    if t is None or x is None:
                        k.ob('hover:%s:known:%s' % (kind, t is not None), t is None and x is None, 'a name is shown exactly if its kind is known', key, tm.shown(g3, 3)[:200])
                        continue
                    val = rules.sel(x, ('JsHover', 'value'))
                    for there in (True, False):
                        w = rules.assume_by(val, stored(H, there))
                        for g4, z in rules.pruned(w, held(g3, H, there)):
                            decide_hover(k, key, kind, there, H, name, z, g4)
                    k.ob('hover:%s:kind' % kind, rules.sel(x, ('JsHover', 'kind')) is tm.S('markdown'), 'what is shown is Markdown', key)
    k.floor('cases of hover', n, 2)


def decide_hover(k, key, kind, there, H, name, z, g):
    z = rules.deep(z, g)
    tag = 'hover:%s:%s' % (kind, 'hints' if there else 'plain')
    if z.k == 'f':
        f = z.a[0]
        if f.k == 'f' and tm.payload(f.a[0]) is f:
            f = f.a[0]
        ok = there and f.k == 'find' and len(f.a[0]) == 1 and f.a[0][0].k == 'elem' and f.a[0][0].a[0] is tm.payload(H) and f.a[2] is f.a[0][0]
        ok = ok and z is rules.sel(f if z.a[0] is f else tm.payload(f), ('Action', 'description'))
        if ok:
            s = [ATOMS[i] for i in sup(f.a[1])]
            ok = len(s) == 1 and f.a[1] is atom(s[0]) and any(u.k == 'call' and u.a[0] == 'starts_with' and u.a[1] is rules.sel(f.a[0][0], ('Action', 'name')) and u.a[2] is name for u in tm.subterms(s[0]))
        k.ob(tag + ':hint', ok, 'what is shown of a hint is the description of the first one that starts with the name', key, rules.flat(z, 400))
        return
    l = z.a if z.k == 'cat' else ()
    l = l[0] if l and isinstance(l[0], tuple) else l
    ok = len(l) >= 3 and l[-1].k == 'str' and l[-2] is name and l[-3].k == 'str'
    none = not there or any(t.k == 'exists' and tm.contains(t, lambda u: u is tm.payload(H) or u is H) and AND(g, atom(t)) is FALSE for t in [ATOMS[i] for i in sup(g)])
    k.ob(tag + ':name', ok and none, 'a name without a hint is shown with its kind', key, rules.flat(z, 400))


def complete(k, NB, D):
    v, c, st, ev, key = NB.exports['complete']
    e = core(NB, 'complete', yields('CompletionType'))
    adt = [p for p in tm.VN if p.split('::')[-1] == 'CompletionType'][0]
    var = D.part(tm.sym('self'), 'lsp_files.variables')
    acts = D.part(tm.sym('self'), 'actions')
    seen = set()
    for g, r in cases(e.res, e.cond):
        if r is None:
            k.ob('complete:nothing', all(x is None for _, x in cases(v, g)), 'where nothing is found nothing is offered', key)
            continue
        for g1, y in rules.variants(r, 'CompletionType', g):
            kind = tm.VN[adt][y.a[1]]
            seen.add(kind)
            if kind == 'Filter':
                for g2, x in cases(v, g1):
                    k.ob('complete:Filter', x is not None, 'filters are offered', key)
                continue
            if kind == 'Identifier':
                d = core(NB, 'complete', list_of('CompletionItem'))
                for g2, lst in cases(d.res, AND(g1, d.cond)):
                    for g3, x in cases(v, g2):
                        if lst is None or x is None:
                            k.ob('complete:Identifier:%s' % (lst is None), lst is None and x is None, 'variables are offered exactly if there are some', key, tm.shown(g3, 3)[:200])
                            continue
                        offered(k, key, listed(rules.deep(lst, g3)), listed(x), acts)
                continue
            if kind == 'IncompleteIdentifier':
                typed = rules.deep(y.a[2], g1)
                rng = y.a[3]
                A, B = tm.mget(var, tm.sym('filename')), tm.mget(var, tm.S('temp'))
                for g2, x in cases(v, g1):
                    if x is None:
                        k.ob('complete:typed:none', AND(g2, atom(tm.mk('isv', A, 1))) is FALSE, 'names of the file are offered', key)
                        continue
                    k.ob('complete:typed:some', AND(g2, NOT(atom(tm.mk('isv', A, 1)))) is FALSE, 'names are offered if the file has some', key)
                    for there in (True, False):
                        z = rules.deep(rules.assume_by(x, stored(B, there)), g2)
                        typed_names(k, key, there, z, [tm.payload(A)] + ([tm.payload(B)] if there else []), typed, rng, g2)
                continue
            k.ob('complete:' + kind, all(x is None for _, x in cases(v, g1)), 'nothing is offered in the context %s' % kind, key)
    k.floor('contexts', len(seen), 4)


def offered(k, key, want, got, acts):
    if not k.ob('complete:Identifier:list', want is not None and got is not None, 'the variables offered are a list', key):
        return
    # hints may be offered too
    rest = [p for p in got if not any(tm.contains(b, lambda u: u is acts) for b in p[0])]
    for bs, g, y in got:
        if (bs, g, y) not in rest:
            own = bs[-1]
            k.ob('complete:Identifier:hint', rules.sel(y, ('JsCompletionItem', 'label')) is rules.sel(own, ('Action', 'name')), 'a hint is offered with its own name', key, rules.flat(y, 300))
    k.ob('complete:Identifier:lists', len(want) == len(rest), 'every variable found is offered', key, '%d of %d lists' % (len(rest), len(want)))
    for i, ((b0, g0, v0), (b1, g1, v1)) in enumerate(zip(want, rest)):
        r = aligned(b0, g0, v0, b1)
        if not k.ob('complete:Identifier:over:%d' % i, r is not None and r[0] is g1, 'the variables offered are those found', key, '; '.join(rules.flat(b, 100) for b in b1)):
            continue
        item = r[1]
        k.ob('complete:Identifier:label:%d' % i, rules.sel(v1, ('JsCompletionItem', 'label')) is rules.sel(item, ('CompletionItem', 'label')), 'a variable is offered with its own name', key, rules.flat(v1, 300))
        det = rules.sel(item, ('CompletionItem', 'detail'))
        desc = rules.sel(v1, ('JsCompletionItem', 'description'))
        det = det.a[2] if det.k == 'agg' and len(det.a) == 3 else tm.payload(det)
        k.ob('complete:Identifier:detail:%d' % i, rules.same(desc, det), 'a variable is offered with its own kind', key, rules.flat(desc, 300))


def typed_names(k, key, there, z, srcs, typed, rng, g):
    tag = 'complete:typed:%s' % ('both' if there else 'file')
    l = listed(z)
    l = [p for p in l if not (p[0] and any(b.k == 'elem' and tm.literal(b.a[0]) == [] for b in p[0]))] if l is not None else None
    ok = l is not None and len(l) == len(srcs) and all(len(bs) == 1 and bs[0].k == 'elem' and bs[0].a[0] is s for (bs, g1, y), s in zip(l, srcs))
    if not k.ob(tag + ':over', ok, 'names of the file and those of the hints are offered', key, rules.flat(z, 400)):
        return
    for i, (bs, g1, y) in enumerate(l):
        name = rules.sel(bs[0], ('Identifier', 'name'))
        s = [ATOMS[j] for j in sup(g1)]
        ok = True
        for t in s:
            us = [u for u in tm.subterms(t) if u.k == 'call' and u.a[0] == 'contains']
            ok = ok and any(u.a[1] is name and (u.a[2] is typed or rules.deep(u.a[2], g) is typed) for u in us)
        k.ob('%s:%d:when' % (tag, i), ok and len(s) == 1 and g1 is atom(s[0]), 'a name is offered exactly if it contains what was typed', key, tm.shown(g1, 4)[:300])
        got = lambda f: rules.sel(y, ('JsCompletionItem', f))
        nt = got('new_text')
        k.ob('%s:%d:name' % (tag, i), got('label') is name and nt.k == 'agg' and len(nt.a) == 3 and nt.a[2] is name, 'a name is offered and put in as it is', key, rules.flat(y, 300))
        for f in ('insert', 'replace'):
            r = got(f)
            ok = r.k == 'agg' and len(r.a) == 3 and moved(r.a[2], rng, g)
            k.ob('%s:%d:%s' % (tag, i, f), ok, 'what was typed is replaced', key, rules.flat(r, 300))


def moved(r, rng, g):
    """r is the range with the offset added"""
    for i in (0, 1):
        p, o = tm.field(r, 'rng', 0, i), tm.field(rng, 'rng', 0, i)
        l = rules.deep(tm.field(p, 'pos', 0, 0), g)
        want = rules.deep(tm.add(tm.field(o, 'pos', 0, 0), tm.sym('line')), g)
        if not rules.same(l, want) or not rules.same(rules.deep(tm.field(p, 'pos', 0, 1), g), rules.deep(tm.field(o, 'pos', 0, 1), g)):
            return False
    return True


def definition(k, NB, D):
    v, c, st, ev, key = NB.exports['goto_definition']
    e = core(NB, 'goto_definition', yields('GotoDefinitionResponse'))
    adt = [p for p in tm.VN if p.split('::')[-1] == 'GotoDefinitionResponse'][0]
    n = 0
    for g, r in cases(e.res, e.cond):
        if r is None:
            k.ob('definition:nothing', all(x is None for _, x in cases(v, g)), 'where no definition is found none is returned', key)
            continue
        for g1, y in rules.variants(r, 'GotoDefinitionResponse', g):
            kind = tm.VN[adt][y.a[1]]
            for g2, x in cases(v, g1):
                n += 1
                if not k.ob('definition:%s:some' % kind, x is not None, 'a definition found gives a list', key):
                    continue
                l = listed(x)
                if not k.ob('definition:%s:list' % kind, l is not None, 'definitions are a list', key, rules.flat(x, 300)):
                    continue
                if kind == 'Scalar':
                    scalar(k, key, rules.deep(y.a[2], g2), l, g2)
                elif kind == 'Array':
                    array(k, key, rules.deep(y.a[2], g2), l, g2)
    k.floor('kinds of definitions', n, 2)


def about(h, g, uri, what):
    """under g, h is that the URL contains this"""
    for c, u in rules.pruned(uri, g):
        u = rules.deep(u, c)
        x = tm.nb(rules.deep(tm.B(h), c))
        t = [a for a in (ATOMS[i] for i in sup(x)) if any(y.k == 'call' and y.a[0] == 'contains' and y.a[2] is what and rules.deep(y.a[1], c) is u for y in tm.subterms(a))]
        if len(t) != 1 or AND(AND(c, atom(t[0])), NOT(x)) is not FALSE or AND(AND(c, x), NOT(atom(t[0]))) is not FALSE:
            return False
    return True


def place_of(k, key, tag, y, loc, g, backend):
    got = lambda f: rules.sel(y, ('JsLocation', f))
    own = lambda f: rules.sel(loc, ('Location', f))
    k.ob(tag + ':range', moved(rules.deep(got('range'), g), rules.deep(own('range'), g), g), 'a definition is at its own place', key, rules.flat(got('range'), 300))
    b = tm.nb(got('is_backend'))
    k.ob(tag + ':backend', b is (TRUE if backend else FALSE), 'a definition says whether it is a hint', key, rules.flat(got('is_backend')))
    f = tm.sym('filename')
    for c, u in rules.pruned(got('uri'), g):
        us = {x for c2, x in rules.pruned(own('uri'), c)}
        k.ob(tag + ':uri', u in us or (u is f and not backend), 'a definition is in its own document', key, rules.flat(u, 200))


def scalar(k, key, loc, l, g):
    ok = len(l) == 1 and not l[0][0]
    if k.ob('definition:one', ok, 'one definition gives at most one', key, '%d parts' % len(l)):
        h, y = l[0][1:]
        uri = rules.sel(loc, ('Location', 'uri'))
        k.ob('definition:one:when', about(h, g, uri, tm.sym('filename')), 'a definition is returned exactly if it is in the document', key, tm.shown(h, 4)[:300])
        place_of(k, key, 'definition:one', y, loc, AND(g, h), False)


def array(k, key, lst, l, g):
    want = listed(lst)
    if not k.ob('definition:hints', want is not None and len(want) == len(l), 'definitions among the hints are those found', key, rules.flat(lst, 300)):
        return
    for i, ((b0, g0, v0), (b1, g1, y)) in enumerate(zip(want, l)):
        r = aligned(b0, g0, v0, b1)
        if not k.ob('definition:hints:over:%d' % i, r is not None, 'definitions are looked for among those found', key, '; '.join(rules.flat(b, 100) for b in b1)):
            continue
        found, loc = r
        uri = rules.sel(loc, ('Location', 'uri'))
        k.ob('definition:hints:when:%d' % i, AND(g1, NOT(found)) is FALSE and about(g1, AND(g, found), uri, tm.S('temp')), 'a definition is returned exactly if it is among the hints', key, tm.shown(g1, 4)[:300])
        place_of(k, key, 'definition:hints:%d' % i, y, loc, AND(AND(g, found), g1), True)


def check(k):
    NB = k.node()
    D = c26.State(NB)
    for op in ('hover', 'complete', 'goto_definition', 'get_variables', 'add_one'):
        if not k.ob('export:' + op, op in NB.exports, 'the binding offers %s' % op, D.adt):
            return
    keys(k, NB, D)
    variables(k, NB, D)
    hover(k, NB, D)
    complete(k, NB, D)
    definition(k, NB, D)
