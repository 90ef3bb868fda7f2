"""C09: a definition is used only for its own name and only inside its scope."""
import rules
import models
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup, forget
from props.c22 import ge, le, lt, tup

RULE = ('At every place that looks for a definition (go-to-definition, hover, completion, the undefined-variable check) the '
        'condition under which a recorded definition is taken is derived from the source and compared, as a boolean function '
        'over the positions and names, with the visibility rule: it must imply it and must hold for every visible '
        'definition. The one chosen must be the maximum in an order that starts with the start position; anything of '
        'another file may be used only under the negation of "this file has a visible one".')


def name_of(x, adt='Identifier'):
    return rules.sel(x, (adt, 'name'))


def start_of(x):
    return rules.sel(x, ('Identifier', 'start'))


def end_of(x):
    return rules.sel(x, ('Identifier', 'end'))


def scope(x):
    return tup(rules.sel(x, ('Identifier', 'scope_ends')), 1)


def kind_is(S, x, name):
    vn = tm.VN[S.idtype_adt]
    return tm.is_variant(rules.sel(x, ('Identifier', 'identifier_type')), vn.index(name), len(vn))


def block(S, x):
    return kind_is(S, x, 'TemplateBlock')


def template(S, x):
    return kind_is(S, x, 'JinjaTemplate')


def check(k):
    S = k.server()
    order(k, S)
    goto(k, S)
    hover(k, S)
    completion(k, S)
    undefined(k, S)


# ---------------------------------------------------------------- order of definitions
def order(k, S):
    S.a.ctx = (('order', 'Identifier'),)
    a, b = tm.sym('a'), tm.sym('b')
    bodies = [n for n in S.prog.bodies if n.endswith('search::Identifier as core::cmp::Ord>::cmp')]
    if not k.ob('order', len(bodies) == 1, 'definitions are ordered', 'Identifier', str(bodies)):
        return
    v, c, st = S.a.entry(bodies[0], [a, b])
    by = {i: any_of([g for g, x in tm.cases(v) if x.k == 'agg' and x.a[1] == i]) for i in (0, 1, 2)}
    k.ob('order:less', rules.implies(lt(start_of(a), start_of(b)), by[0]), 'a definition that starts earlier is smaller', bodies[0])
    k.ob('order:greater', rules.implies(lt(start_of(b), start_of(a)), by[2]), 'a definition that starts later is greater', bodies[0])


class Best(object):
    """a chosen definition: the item, when there is one, what it is chosen from and whether it is the greatest"""
    def __init__(self, term, some, comp, order):
        self.term, self.some, self.comp, self.order = term, some, comp, order


def greatest(k, S, t, memo={}):
    """the definitions inside t that were chosen among several"""
    out = []
    for x in tm.subterms(t):
        if x not in memo:
            memo[x] = None
            if x.k == 'call' and x.a[0] in ('max', 'max_by_key'):
                ok = x.a[0] == 'max' or x.a[2] is start_of(tm.sym('item'))
                memo[x] = Best(x, NOT(models.empty(x.a[1])), rules.comp(x.a[1]), ok)
            elif x.k == 'lv' and x in S.a.lvinfo:
                memo[x] = fold(S, x)
        if memo[x] is not None:
            out.append(memo[x])
    return sorted(set(out), key=lambda b: b.term.id)


def fold(S, lv):
    """a loop that keeps the greatest candidate seen so far"""
    init, step, bs = S.a.lvinfo[lv]
    if tm.is_some(init) is not FALSE:
        return None
    some, p = tm.is_some(lv), tm.payload(lv)
    take, item = FALSE, None
    for g, x in rules.pruned(step, TRUE):
        y = rules.deep(tm.payload(x), g) if tm.is_some(x) is not FALSE else None
        if x is lv or y is p or y is None and AND(g, some) is FALSE:
            continue
        if y is None or item is not None and y is not item:
            return None
        take, item = OR(take, g), y
    if item is None:
        return None
    first = rules.assume(take, rules.literals(NOT(some)))
    again = rules.assume(take, rules.literals(some))
    if any(tm.contains(ATOMS[i], lambda t: t is lv) for i in sup(first)):
        return None
    ok = AND(again, NOT(first)) is FALSE and any(rules.implies(AND(first, AND(some, less(b, a))), again) and rules.implies(AND(again, less(a, b)), FALSE)
                                                 for less, a, b in ((lt, start_of(item), start_of(p)), (models.lt, item, p)))
    return Best(p, some, (tuple(bs), first, item), ok)


def candidates(k, S, key, m, own, name, pos, where, blocks):
    """the sequence holds exactly the visible definitions of that name"""
    c = m.comp
    ok = c is not None and len(c[0]) == 1 and c[0][0].k == 'elem' and c[0][0].a[0] is own and c[2] is c[0][0]
    if not k.ob(key + ':own', ok, 'the candidates are definitions recorded for this document', where, rules.flat(m.term)):
        return
    visible(k, S, key, c[0][0], c[1], name, pos, where, blocks)


def visible(k, S, key, x, g, name, pos, where, blocks):
    sane = le(start_of(x), end_of(x))
    h = AND(g, sane)
    k.ob(key + ':name', rules.implies(h, tm.eq(name_of(x), name)), 'only a definition of that very name is taken', where, tm.shown(g, 3)[:300])
    k.ob(key + ':after', before(h, x, pos), 'only a definition made before the position is taken', where, tm.shown(g, 3)[:300])
    k.ob(key + ':scope', rules.implies(h, le(pos, scope(x))), 'only a definition whose scope has not ended is taken', where, tm.shown(g, 3)[:300])
    if not blocks:
        k.ob(key + ':block', rules.implies(h, NOT(block(S, x))), 'a block is not taken for a variable', where, tm.shown(g, 3)[:300])
    spec = AND(AND(tm.eq(name_of(x), name), AND(AND(le(start_of(x), pos), le(end_of(x), pos)), le(pos, scope(x)))), AND(NOT(block(S, x)), NOT(template(S, x))))
    k.ob(key + ':every', rules.implies(AND(spec, sane), g), 'every visible definition of that name is considered', where, tm.shown(g, 3)[:300])


def before(h, x, pos):
    """x starts (or even ends) at or before the position"""
    return rules.implies(h, le(start_of(x), pos)) or rules.implies(h, le(end_of(x), pos))


def query_of(t, result):
    """the query result the name comes from"""
    return {x for x in tm.subterms(t) if x.k == 'call' and str(x.a[0]).split('::')[-1] == result}


def identifier(k, S, key, cond, pos, where):
    """the last object under the cursor: (object, the condition that the cursor is at it)"""
    objs = set()
    for c in cond:
        for t in ([c] if isinstance(c, tm.T) else [ATOMS[i] for i in sup(c)]):
            objs |= query_of(t, 'objects_query')
    if not k.ob(key + ':objects', len(objs) == 1, 'the identifier is looked up once', where, str(len(objs))):
        return None
    q = objs.pop()
    k.ob(key + ':cursor', any(x is pos for x in q.a[1:]), 'the identifier is the one at the cursor', where, rules.flat(q))
    return q


# ---------------------------------------------------------------- go to definition
def goto(k, S):
    s = S.scene('GoToDefinition', 'html', True)
    tdp = rules.sel(s.param(0), ('GotoDefinitionParams', 'text_document_position_params'))
    uri = rules.sel(tdp, ('TextDocumentPositionParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
    pos = rules.sel(tdp, ('TextDocumentPositionParams', 'position'))
    where = 'GoToDefinition'
    own = tm.payload(tm.mget(S.store('variables')[0], uri))
    ms, name, n = set(), None, [0, 0]
    rs = [(g, v) for c, a in rules.replies(S, s) for g, v in rules.pruned(a, c)]
    allc = any_of([g for g, v in rs])
    q = identifier(k, S, 'goto', [g for g, v in rs] + [v for g, v in rs], pos, where)
    if q is None:
        return
    J = lambda f: rules.sel(q, ('JinjaObjects', f))
    ident = J('ident')
    scalar, other = [], []
    for g, v in rs:
        ls = rules.aggs(v, 'Location')
        inner = v.a[2] if v.k == 'agg' and len(v.a) == 3 and v.a[2].k == 'agg' else None
        vn = tm.VN[inner.a[0]][inner.a[1]] if inner is not None else None
        if vn == 'Scalar' and len(ls) == 1:
            u = rules.sel(ls[0], ('Location', 'uri'))
            for h, y in rules.pruned(u, g):
                if y is uri:
                    scalar.append((h, rules.deep(rules.sel(ls[0], ('Location', 'range')), h)))
                else:
                    ok = not any(t is own for t in tm.subterms(y)) and not tm.contains(rules.deep(ls[0], h), lambda t: t.k == 'call' and t.a[0] == 'max')
                    k.ob('goto:template', ok, 'an answer that leads to another file is not a definition of this one', where, rules.flat(y))
        elif vn == 'Array':
            other.append((g, inner))
        else:
            k.ob('goto:form', v.k == 'agg' and len(v.a) == 2, 'the answer is one location, many or none', where, rules.flat(v))
    for g, r in scalar:
        for h, a, b in pairs(r, g):
            n[0] += 1
            got = greatest(k, S, tm.mk('agg', '()', 0, a, b))
            ok = len(got) == 1 and same_item(a, b, got[0].term)
            k.ob('goto:item', ok, 'the answer runs from the start to the end of the greatest candidate', where, '%s .. %s' % (rules.flat(a, 200), rules.flat(b, 200)))
            ms |= set(got)
            k.ob('goto:order', all(x.order for x in got), 'the greatest in definition order is chosen', where, rules.flat(a))
    name = None
    ns = object_names(q, any_of([g for g, r in scalar]) if scalar else FALSE, ms)
    if k.ob('goto:name', len(ns) == 1, 'the name is that of the identifier at the cursor', where, str(len(ns))):
        name = ns.pop()
        for m in ms:
            candidates(k, S, 'goto', m, own, name, pos, where, True)
            some = m.some
            inside = AND(AND(ge(pos, tup(ident, 0)), le(pos, tup(ident, 1))), AND(NOT(models.empty(J('objects'))), tm.is_some(tm.mget(S.store('variables')[0], uri))))
            mine = any_of([g for g, r in scalar])
            k.ob('goto:first', rules.implies(AND(allc, AND(inside, some)), mine), 'a definition of this file is preferred to anything else', where)
            for g, v in other:
                k.ob('goto:other', rules.implies(AND(g, AND(inside, some)), FALSE), 'other files are consulted only when this one has no candidate', where)
    for g, v in other:
        for bs, h, x in rules.elements(S, v.a[2], g, on=s.on):
            n[1] += 1
            elsewhere(k, S, 'goto:elsewhere', bs, h, x, uri, name, where)
    k.floor('own locations', n[0], 1)
    k.floor('locations in other files', n[1], 1)
    k.floor('goto searches', len(ms), 1)


def pairs(r, g):
    """(condition, start, end) of a range"""
    st, en = tm.field(r, 'rng', 0, 0), tm.field(r, 'rng', 0, 1)
    for h, a in rules.pruned(st, g):
        for h2, b in rules.pruned(rules.deep(en, h), h):
            yield h2, whole(a), whole(b)


def whole(p):
    """the position a position made of line and column of another one is a copy of"""
    if p.k == 'agg' and p.a[0] == 'pos':
        l, c = p.a[2], p.a[3]
        if l.k == 'f' and c.k == 'f' and l.a[0] is c.a[0] and l.a[3] == 0 and c.a[3] == 1:
            return l.a[0]
    return p


def same_item(a, b, m):
    return a is start_of(m) and b is end_of(m)


def object_names(q, cond, ms):
    """names of objects of the query compared in the searches"""
    out = set()
    for m in ms:
        c = m.comp
        if c is None:
            continue
        for i in sup(c[1]):
            t = ATOMS[i]
            if t.k == 'eq':
                for x in t.a:
                    if x.k == 'f' and x.a[1].split('::')[-1] in ('JinjaObject', 'Identifier') and tm.FN[x.a[1]][0][x.a[3]] == 'name' and not any(y in tm.subterms(x) for y in c[0]):
                        if tm.contains(x, lambda t: t is q):
                            out.add(x)
    return out


def elsewhere(k, S, key, bs, h, x, uri, name, where):
    """a definition of another file with that name"""
    el = bs[-1] if bs else None
    V = S.store('variables')[0]
    ok = len(bs) == 2 and bs[0].k == 'elem' and el.k == 'elem' and el.a[0] is tup(bs[0], 1) and bs[0].a[0] is V
    if not k.ob(key + ':source', ok, 'the alternatives are recorded definitions', where, rules.flat(x)):
        return
    k.ob(key + ':file', rules.implies(h, NOT(tm.eq(tup(bs[0], 0), uri))), 'the alternatives belong to other files', where, tm.shown(h, 2)[-300:])
    k.ob(key + ':name', named(h, el), 'the alternatives have that name', where, tm.shown(h, 3)[-300:])
    r = rules.sel(x, ('Location', 'range'))
    for g, a, b in pairs(r, h):
        k.ob(key + ':item', a is start_of(el) and b is end_of(el), 'an alternative is shown at its own place', where, rules.flat(r))
    u = rules.sel(x, ('Location', 'uri'))
    k.ob(key + ':uri', all(of_file(y, bs[0]) for g, y in rules.pruned(u, h)), 'an alternative is shown in its own file', where, rules.flat(u))


def of_file(u, b):
    f = tup(b, 0)
    return u is f or u.k == 'call' and u.a[0] == 'cat' and u.a[1] is f or u.k == 'cat' and u.a[0] is f


def named(h, el):
    """the condition requires the name, or its part before the first dot, to equal something"""
    n = name_of(el)
    forced = False
    for i in sup(h):
        t = ATOMS[i]
        if t.k == 'eq' and any(tm.contains(x, lambda y: y is n) for x in t.a if isinstance(x, tm.T)):
            if AND(h, NOT(atom(t))) is FALSE:
                forced = True
    return forced or any_eq(h, n)


def any_eq(h, n):
    """some comparison of the name holds in every case"""
    eqs = [atom(ATOMS[i]) for i in sup(h) if ATOMS[i].k == 'eq' and any(tm.contains(x, lambda y: y is n) for x in ATOMS[i].a if isinstance(x, tm.T))]
    return bool(eqs) and AND(h, NOT(any_of(eqs))) is FALSE


# ---------------------------------------------------------------- hover
def hover(k, S):
    s = S.scene('Hover', 'html', True)
    tdp = rules.sel(s.param(0), ('HoverParams', 'text_document_position_params'))
    uri = rules.sel(tdp, ('TextDocumentPositionParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
    pos = rules.sel(tdp, ('TextDocumentPositionParams', 'position'))
    own = tm.payload(tm.mget(S.store('variables')[0], uri))
    where = 'Hover'
    seen = set()
    C, fn = rules.contexts(S, s)
    if not k.ob('hover:context', 'Identifier' in C, 'hover knows identifiers', fn.name):
        return
    ids = list(rules.variants(fn.res, 'Identifier', fn.cond))
    n = [0, 0]
    for c, v in rules.replies(S, s):
        for g0, _ in C['Identifier']:
            h0 = AND(c, g0)
            obj = [rules.deep(x, h0) for g, x in ids if AND(g, h0) is not FALSE]
            if not k.ob('hover:one', len(set(obj)) == 1, 'one identifier is looked up', where, str(len(obj))):
                continue
            name, at = name_of(obj[0]), start_of(obj[0])
            for g, x in rules.pruned(v, h0):
                y = rules.deep(x, g)
                vals = [rules.sel(m, ('MarkupContent', 'value')) for m in rules.aggs(y, 'MarkupContent')]
                if not vals:
                    continue
                for h, t in [r for val in vals for r in rules.pruned(val, g)]:
                    got = sorted(set(greatest(k, S, t) + [m for i in sup(h) for m in greatest(k, S, ATOMS[i])]), key=lambda m: m.term.id)
                    for m in got:
                        if m not in seen:
                            seen.add(m)
                            candidates(k, S, 'hover', m, own, name, at, where, False)
                            k.ob('hover:order', m.order, 'the greatest in definition order is chosen', where)
                    mine = any_of([AND(h, m.some) for m in got])
                    n[0] += mine is not FALSE
                    rest = AND(h, NOT(mine))
                    if rest is not FALSE:
                        n[1] += 1
                        others(k, S, s, rest, got, own, uri, name, at, where)
                    for m in got:
                        own_kind(k, S, AND(h, m.some), m.term, val_of(vals, g), where)
    k.floor('hover answers from this file', n[0], 1)
    k.floor('hover answers from other files', n[1], 1)


def val_of(vals, g):
    return tm.gv([(TRUE, v) for v in vals]) if len(vals) > 1 else vals[0]


def own_kind(k, S, h, m, val, where):
    """what is shown for a definition of this file depends on the kind of that definition alone"""
    if h is FALSE:
        return
    ty = rules.sel(m, ('Identifier', 'identifier_type'))
    for vn, v in rules.by_kind(S, rules.deep(val, h), ty, S.idtype_adt, h).items():
        g = rules.assume(h, rules.variant_lits(ty, S.idtype_adt, vn))
        xs = {x for _, x in rules.pruned(v, g)}
        k.ob('hover:kind:' + vn, len(xs) == 1, 'the kind of the greatest candidate decides what is shown', where, str([rules.flat(x, 60) for x in xs]))


def others(k, S, s, h, got, own, uri, name, at, where):
    """under h no definition of this file is visible, and another file has one of that name"""
    # the searches in this file that found nothing
    ok = any(AND(h, m.some) is FALSE for m in got)
    for i in sup(h):
        t = ATOMS[i]
        if t.k == 'exists' and AND(h, atom(t)) is FALSE and len(t.a[0]) == 1 and t.a[0][0].a[0] is own:
            ok = True
            visible(k, S, 'hover:none', t.a[0][0], t.a[1], name, at, where, False)
    k.ob('hover:other', ok or rules.implies(h, NOT(tm.is_some(tm.mget(S.store('variables')[0], uri)))), 'other files are consulted only when this one has no candidate', where, tm.shown(h, 2)[-300:])
    some = [ATOMS[i] for i in sup(h) if ATOMS[i].k == 'exists' and AND(h, NOT(atom(ATOMS[i]))) is FALSE]
    k.ob('hover:elsewhere', any(inner(t)[0].a[0] is not own and named(inner(t)[1], inner(t)[0]) for t in some), 'another file has a definition of that name', where, tm.shown(h, 2)[-300:])
    k.ob('hover:elsewhere:file', any(rules.implies(t.a[1], NOT(tm.eq(tup(t.a[0][0], 0), uri))) for t in some), 'the alternatives belong to other files', where, tm.shown(h, 2)[-300:])


def inner(t):
    """(innermost bound element, condition on it) of nested searches"""
    g = t.a[1]
    for i in sup(g):
        u = ATOMS[i]
        if u.k == 'exists' and AND(g, NOT(atom(u))) is FALSE:
            d, h = inner(u)
            return d, h
    return t.a[0][-1], g


# ---------------------------------------------------------------- completion
def completion(k, S):
    s = S.scene('Completion', 'html', True)
    C, fn = rules.contexts(S, s)
    tdp = rules.sel(s.param(0), ('CompletionParams', 'text_document_position'))
    uri = rules.sel(tdp, ('TextDocumentPositionParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
    pos = rules.sel(tdp, ('TextDocumentPositionParams', 'position'))
    own = tm.payload(tm.mget(S.store('variables')[0], uri))
    n = [0, 0]
    for c, v in rules.replies(S, s):
        for kind in ('Identifier', 'IncompleteIdentifier'):
            for g0, _ in C.get(kind, ()):
                for g, x in rules.pruned(v, AND(c, g0)):
                    for r in rules.aggs(x, 'CompletionResponse'):
                        for bs, h, y in rules.elements(S, r.a[2], g, on=s.on):
                            el = bs[-1] if bs else None
                            if el is None or el.k != 'elem':
                                continue
                            if el.a[0] is own:
                                n[0] += 1
                                sane = le(start_of(el), end_of(el))
                                f = AND(h, sane)
                                k.ob('complete:after:' + kind, before(f, el, pos), 'only what is defined before the cursor is offered', fn.name)
                                k.ob('complete:scope:' + kind, rules.implies(f, le(pos, scope(el))), 'only what is in scope at the cursor is offered', fn.name)
                                k.ob('complete:block:' + kind, rules.implies(f, NOT(OR(block(S, el), template(S, el)))), 'blocks and template names are not offered as variables', fn.name)
                            else:
                                n[1] += 1
                                k.ob('complete:other:' + kind, rules.implies(h, kind_is(S, el, 'BackendVariable')), 'from other files only backend variables are offered', fn.name, rules.flat(el))
    k.floor('own completion entries', n[0], 2)
    k.floor('other completion entries', n[1], 2)


# ---------------------------------------------------------------- undefined variables
def undefined(k, S):
    for variant, par in (('DidSave', 'DidSaveTextDocumentParams'), ('DidOpen', 'DidOpenTextDocumentParams')):
        s0 = S.scene(variant, 'html', True)
        doc = rules.sel(s0.param(0), (par, 'text_document'))
        uri = tm.field(doc, [a for a in tm.FN if a.split('::')[-1] == ('TextDocumentIdentifier' if variant == 'DidSave' else 'TextDocumentItem')][0], 0, 0)
        V = S.store('variables')[0]
        there = tm.mget(V, uri)

        def known(t, there=there):
            return True if t.k == 'isv' and t.a[0] is there and t.a[1] == 1 else None
        s = S.scene(variant, 'html', True, known)
        after = s.after('variables')
        own = tm.payload(tm.mget(after, uri))
        n = 0
        for e in s.events:
            if not (is_diag(S, e)):
                continue
            for c, v in rules.pruned(e.args[1], e.cond):
                if v.k != 'agg' or len(v.a) != 3:
                    continue
                lst = tm.payload(tm.mget(v.a[2], uri))
                by = {}
                for bs, g, y in rules.elements(S, lst, c, on=s.on):
                    el = bs[-1] if bs else None
                    if el is None or el.k != 'elem' or not query_of(el.a[0], 'objects_query') or y.k != 'agg':
                        continue
                    by.setdefault(el, []).append((g, y))
                for el, l in by.items():
                    n += 1
                    problem(k, S, s, variant, el, l, c, own, uri, after)
        k.floor('undefined checks on ' + variant, n, 1)


def is_diag(S, e):
    return rules.is_send(e) and e.args[1].k in ('agg', 'gv') and any(True for _ in rules.variants(e.args[1], S.diag_adt.split('::')[-1]))


def obj(x, f):
    return rules.sel(x, ('JinjaObject', f))


def problem(k, S, s, variant, el, l, c, own, uri, after):
    where = 'undefined variables (%s)' % variant
    key = 'undefined:' + variant
    at, to = tup(obj(el, 'location'), 0), tup(obj(el, 'location'), 1)
    name = obj(el, 'name')
    some = any_of([g for g, y in l])
    skip = OR(tm.nb(obj(el, 'is_filter')), tm.nb(obj(el, 'is_test')))
    k.ob(key + ':kind', rules.implies(some, NOT(skip)), 'filters and tests are not variables', where)
    found = [ATOMS[i] for i in sup(some) if ATOMS[i].k == 'exists' and own_search(ATOMS[i], own) is not None
             and AND(some, AND(atom(ATOMS[i]), taken(ATOMS[i], own))) is FALSE]
    if not k.ob(key + ':search', len(found) >= 1, 'a variable is reported only when no definition of this file is in scope', where, tm.shown(some, 2)[:300]):
        return
    none = TRUE
    for t in found:
        d, g = t.a[0][-1], t.a[1]
        none = AND(none, NOT(AND(atom(t), taken(t, own))))
        use(k, S, key, d, g, name, at, to, where, own_search(t, own))
    flag = ignore(S)
    k.ob(key + ':every', rules.implies(AND(AND(c, NOT(skip)), AND(none, NOT(flag))), some), 'every variable without a definition in scope is reported', where, tm.shown(AND(AND(c, NOT(skip)), NOT(some)), 2)[:300])
    # which problem
    for g, y in l:
        dg = y.a[2]
        for h, v in rules.pruned(dg, g):
            if not k.ob(key + ':sort', v.k == 'agg', 'the problem is known', where, rules.flat(v)):
                continue
            vn = tm.VN[S.jdiag_adt][v.a[1]]
            k.ob(key + ':sorts', vn in ('Undefined', 'DefinedSomewhere'), 'a variable is undefined or defined somewhere', where, vn)
            if vn == 'DefinedSomewhere':
                # some file defines it, and this one doesn't
                other = [ATOMS[i] for i in sup(h) if ATOMS[i].k == 'exists' and AND(h, NOT(atom(ATOMS[i]))) is FALSE]
                k.ob(key + ':somewhere', any(names(S, t, name, after) for t in other), 'defined elsewhere is what another file defines', where, tm.shown(h, 2)[:300])
                here = [ATOMS[i] for i in sup(h) if ATOMS[i].k == 'exists' and own_search(ATOMS[i], own) is not None and AND(h, AND(atom(ATOMS[i]), taken(ATOMS[i], own))) is FALSE]
                k.ob(key + ':not-here', bool(anywhere(S, here, name, own)), 'another file counts only when this one has no definition of that name', where, tm.shown(h, 2)[:300])
            else:
                for t in [ATOMS[i] for i in sup(h) if ATOMS[i].k == 'exists' and inner(ATOMS[i])[0] is not ATOMS[i].a[0][-1]]:
                    here = any_of([atom(x) for x in anywhere(S, [ATOMS[i] for i in sup(h) if ATOMS[i].k == 'exists' and own_search(ATOMS[i], own) is not None], name, own)])
                    k.ob(key + ':nowhere', rules.implies(AND(h, NOT(here)), NOT(atom(t))), 'a variable defined in another file is not called undefined', where)
        k.ob(key + ':item', own_item(y.a[3], el), 'the problem is reported at the use', where, rules.flat(y.a[3]))


def ignore(S):
    return tm.nb(S.store('ignore_globals')[0])


def own_list(t, own):
    return t is own or t.k == 'gv' and any(x is own for g, x in t.a) or own.k == 'gv' and t in [x for g, x in own.a] or rules.same(t, own)


def own_search(t, own):
    """what is known of the elements a search goes over, if these are the ones of the list"""
    b = t.a[0][-1]
    if b.k != 'elem' or len(t.a[0]) > 1:
        return None
    if own_list(b.a[0], own):
        return TRUE
    if own.k == 'seq' and len(own.a) == 1 and own.a[0][0] == 'for' and len(own.a[0][1]) == 1:
        # the list is itself a selection
        e, c, y = own.a[0][1][0], own.a[0][2], own.a[0][3]
        if y is e and own_list(b.a[0], e.a[0]):
            return tm.subst(c, {e: b})
    return None


def taken(t, own):
    """when a selection is made from the elements a search goes over, whatever they are"""
    g, b = own_search(t, own), t.a[0][-1]
    return forget(g, [i for i in sup(g) if b in tm.subterms(ATOMS[i])])


def own_item(x, el):
    """an identifier with name and location of the object"""
    return rules.sel(x, ('Identifier', 'name')) is obj(el, 'name') and start_of(x) is tup(obj(el, 'location'), 0) and end_of(x) is tup(obj(el, 'location'), 1)


def use(k, S, key, d, g, name, at, to, where, member=TRUE):
    """d is taken as the definition of the use exactly when it has the name, isn't a block, is made before and in scope"""
    zero = models.eqpos(scope(d), tm.mk('agg', 'pos', 0, tm.I(0), tm.I(0)))
    spec = AND(AND(tm.eq(name_of(d), name), NOT(block(S, d))), AND(le(start_of(d), to), OR(zero, lt(at, scope(d)))))
    sane = AND(le(start_of(d), end_of(d)), lt(at, to))
    k.ob(key + ':name', rules.implies(g, tm.eq(name_of(d), name)), 'only a definition of that name counts', where)
    k.ob(key + ':block', rules.implies(g, NOT(block(S, d))), 'a block does not define a variable', where)
    k.ob(key + ':after', rules.implies(g, le(start_of(d), to)), 'only a definition made before the use counts', where)
    k.ob(key + ':scope', rules.implies(g, OR(zero, lt(at, scope(d)))) or rules.implies(g, OR(zero, le(at, scope(d)))), 'only a definition whose scope has not ended counts', where)
    k.ob(key + ':visible', rules.implies(AND(AND(spec, sane), member), g), 'every definition in scope counts', where)


def anywhere(S, ts, name, own):
    """searches of this file which together find every definition of that name"""
    def all_found(ts):
        d = ts[0].a[0][-1]
        return rules.implies(AND(AND(tm.eq(name_of(d), name), NOT(block(S, d))), own_search(ts[0], own)), any_of([tm.subst(t.a[1], {t.a[0][-1]: d}) for t in ts]))
    one = [t for t in ts if all_found([t])]
    if one:
        return one
    lists = {}
    for t in ts:
        d = t.a[0][-1]
        if rules.implies(t.a[1], tm.eq(name_of(d), name)):
            lists.setdefault(d.a[0], []).append(t)
    return [t for l in lists.values() if all_found(l) for t in l]


def names(S, t, name, after):
    d, g = inner(t)
    return rules.implies(g, tm.eq(name_of(d), name))
