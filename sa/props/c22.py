"""C22: completion answers come from the list that fits the context."""
import rules
import models
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup
from props import c14, c18

RULE = ('The context the cursor is found to be in (filter, test, identifier, incomplete identifier, template, snippet) is '
        'derived from the source as a condition over the query results and the cursor; each condition must imply that '
        'the cursor is in that construct and a cursor in that construct must be given that context. Under each context the '
        'answer is specialised: every offered entry must come from the list of that context with its own label, and its '
        'edit, for both values of the editor flag, must have the form of that editor with the range of the context and the text of the entry.')

KINDS = ('Filter', 'Test', 'Identifier', 'IncompleteIdentifier', 'IncludedTemplate', 'Snippets')


def ge(a, b):
    return NOT(models.lexlt(a, b))


def le(a, b):
    return NOT(models.lexlt(b, a))


def lt(a, b):
    return models.lexlt(a, b)


def tup(t, i):
    return tm.field(t, '()', 0, i)


def queries(S, s, C):
    """{name of the result type: result} of the queries the contexts depend on"""
    out = {}
    for n in C:
        for g, v in C[n]:
            for i in sup(g):
                for t in tm.subterms(ATOMS[i]):
                    if t.k == 'call' and str(t.a[0]).startswith('fn:'):
                        out.setdefault(str(t.a[0]).split('::')[-1], set()).add(t)
    return out


def check(k):
    S = k.server()
    s = S.scene('Completion', 'html', True)
    C, fn = rules.contexts(S, s)
    G = {n: any_of([g for g, v in C[n]]) for n in C}
    for n in KINDS:
        k.ob('context:' + n, n in C and G[n] is not FALSE, 'there is a %s context' % n, fn.name)
    k.floor('contexts', len(C), len(KINDS))
    where(k, S, s, C, G, fn)
    when(k, S, s, G, fn)
    answers(k, S, s, C, G, fn, 'template')
    b = S.scene('Completion', 'rs', True)
    CB, fb = rules.contexts(S, b)
    k.ob('backend', set(CB) == {'IncludedTemplate'}, 'in a backend file only template names are completed', fb.name, str(sorted(CB)))
    answers(k, S, b, CB, {n: any_of([g for g, v in CB[n]]) for n in CB}, fb, 'backend')


# ---------------------------------------------------------------- where the cursor is
def where(k, S, s, C, G, fn):
    Q = queries(S, s, C)
    pos = rules.sel(s.param(0), ('CompletionParams', 'text_document_position'), ('TextDocumentPositionParams', 'position'))

    def one(name):
        q = Q.get(name, set())
        if not k.ob('query:' + name, len(q) == 1, 'the context is found by one evaluation of %s' % name, fn.name, str(len(q))):
            raise rules.Missing('the result of ' + name)
        return list(q)[0]
    obj, snip = one('objects_query'), one('snippets_query')
    for nm, q in (('objects_query', obj), ('snippets_query', snip)):
        k.ob('cursor:' + nm, any(x is pos for x in q.a[1:]), 'the query is evaluated at the cursor', fn.name, rules.flat(q))
    J = lambda f: rules.sel(obj, ('JinjaObjects', f))
    pipe, expr, ident, test = J('pipe'), J('expr'), J('ident'), J('test')
    SN = AND(tm.nb(rules.sel(snip, ('Snippets', 'is_error'))), le(pos, rules.sel(snip, ('Snippets', 'end'))))
    PIPE = AND(lt(tup(pipe, 0), pos), le(pos, tup(pipe, 1)))
    EXPR = AND(lt(tup(expr, 0), pos), lt(pos, tup(expr, 1)))
    IDENT = AND(ge(pos, tup(ident, 0)), le(pos, tup(ident, 1)))
    TEST = AND(tm.nb(tup(test, 2)), AND(ge(pos, tup(test, 1)), tm.eq(tm.field(pos, 'pos', 0, 0), tm.field(tup(test, 1), 'pos', 0, 0))))
    IN = {'Filter': [('after a pipe', PIPE)], 'Test': [('after "is"', TEST)], 'Snippets': [('in a broken statement', SN)],
          'Identifier': [('in an expression', EXPR)], 'IncompleteIdentifier': [('in an expression', EXPR), ('at an identifier', IDENT)]}
    for n, l in IN.items():
        for what, f in l:
            k.ob('where:%s:%s' % (n, what), n in G and rules.implies(G[n], f), 'a %s context is found only %s' % (n, what), fn.name)
    ANY = any_of(list(G.values()))
    # the trigger: any context at all
    p = rules.sel(s.param(0), ('CompletionParams', 'context'))
    trig = requested(p)
    k.ob('trigger', rules.implies(ANY, trig), 'completion answers only what the editor asked for', fn.name)
    NS = AND(trig, NOT(SN))
    k.ob('every:Snippets', rules.implies(AND(trig, SN), G['Snippets']), 'a cursor in a broken statement gets snippets', fn.name)
    k.ob('every:Filter', rules.implies(AND(NS, PIPE), G['Filter']), 'a cursor after a pipe gets filters', fn.name)
    k.ob('every:Test', rules.implies(AND(AND(NS, TEST), AND(NOT(PIPE), NOT(EXPR))), G['Test']), 'a cursor after "is" gets tests', fn.name)
    b0, b1 = rules.sel(tup(expr, 2), ('ExpressionRange', 'begin')), rules.sel(tup(expr, 2), ('ExpressionRange', 'end'))
    E2 = AND(EXPR, OR(lt(tup(ident, 0), pos), models.eqpos(tup(b0, 1), tup(b1, 0))))
    k.ob('every:Identifier', rules.implies(AND(NS, AND(NOT(PIPE), E2)), OR(OR(G['Identifier'], G['IncompleteIdentifier']), no_prefix(G['IncompleteIdentifier']))), 'a cursor in an expression gets identifiers', fn.name)
    # a prefix is completed only when the cursor is at the identifier
    objects = J('objects')
    last = None
    for g, v in C['IncompleteIdentifier']:
        r = payload(v, 'range')
        k.ob('range:IncompleteIdentifier', from_last(r, objects, g), 'the range of an incomplete identifier is that of the last object', fn.name, rules.flat(r))
    for g, v in C['Snippets']:
        r = payload(v, 'range')
        k.ob('range:Snippets', tm.field(r, 'rng', 0, 0) is pos, 'the range of a snippet starts at the cursor', fn.name, rules.flat(r))
    template(k, S, s, C, Q, pos, fn)


def no_prefix(g):
    """the part of the identifier before the cursor isn't there"""
    return any_of([NOT(atom(ATOMS[i])) for i in sup(g) if ATOMS[i].k == 'isv' and is_part(ATOMS[i].a[0])])


def is_part(t):
    return t.k == 'call' and t.a[0] == 'substr'


def requested(p):
    """triggered by a character or invoked"""
    x = tm.payload(p)
    kind = rules.sel(x, ('CompletionContext', 'trigger_kind'))
    n = tm.field(kind, [a for a in tm.FN if a.split('::')[-1] == 'CompletionTriggerKind'][0], 0, 0)
    return AND(tm.is_some(p), OR(tm.eq(n, tm.I(1)), tm.eq(n, tm.I(2))))


def payload(v, f):
    return tm.field(v, v.a[0], v.a[1], tm.FN[v.a[0]][v.a[1]].index(f))


def from_last(r, objects, cond):
    """the range runs over the last object: its name and everything after its dots"""
    last = tm.call('last', objects)
    loc, fields = rules.sel(last, ('JinjaObject', 'location')), rules.sel(last, ('JinjaObject', 'fields'))
    none = tm.empty(fields)
    want = [(none, tup(loc, 1)), (NOT(none), tup(tup(tm.call('last', fields), 1), 1))]
    cond = AND(cond, NOT(tm.empty(objects)))
    n = 0
    for g, a in c18.expand(tm.field(r, 'rng', 0, 0), cond):
        if a is not tup(loc, 0):
            return False
        for e, w in want:
            for g2, b in c18.expand(tm.field(r, 'rng', 0, 1), AND(g, e)):
                n += 1
                if c18.expand(w, g2) is None or [y for _, y in c18.expand(w, g2)] != [b]:
                    return False
    return n > 0


def template(k, S, s, C, Q, pos, fn):
    """the template a name is completed for is the one the cursor is in"""
    for g, v in C['IncludedTemplate']:
        r = payload(v, 'range')
        memo = {}
        n = 0
        for st, en, c in ranges(r, g):
            n += 1
            f = AND(ge(pos, st), le(pos, en))
            k.ob('where:IncludedTemplate', found_inside(st, pos) or rules.implies(c, f), 'a template name is completed only when the cursor is in it', fn.name, rules.flat(st))
        k.floor('template ranges', n, 1)


def ranges(r, cond):
    st, en = tm.field(r, 'rng', 0, 0), tm.field(r, 'rng', 0, 1)
    l = tm.field(st, 'pos', 0, 0)
    for g, x in rules.pruned(l, cond):
        a = rules.deep(st, g)
        b = rules.deep(en, g)
        yield a, b, g


def found_inside(st, pos):
    """the item is the first one found to contain the cursor"""
    for t in tm.subterms(st):
        if t.k == 'find':
            bs, c, v = t.a[:3]
            a = [x for x in tm.subterms(st) if x.k == 'f' and x.a[0] is t]
            for x in (v,):
                s0, e0 = rules.sel(x, ('Identifier', 'start')), rules.sel(x, ('Identifier', 'end'))
                if rules.implies(c, AND(ge(pos, s0), le(pos, e0))):
                    return True
    return False


def when(k, S, s, G, fn):
    """no context, no answer"""
    ANY = any_of(list(G.values()))
    for c, v in rules.replies(S, s):
        for g, x in rules.pruned(v, AND(c, NOT(ANY))):
            k.ob('none', x.k == 'agg' and len(x.a) == 2, 'without a context nothing is offered', fn.name, rules.flat(x))


# ---------------------------------------------------------------- what is offered
def answers(k, S, s, C, G, fn, lang):
    pos = rules.sel(s.param(0), ('CompletionParams', 'text_document_position'), ('TextDocumentPositionParams', 'position'))
    uri = rules.sel(s.param(0), ('CompletionParams', 'text_document_position'), ('TextDocumentPositionParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
    W = {f: s.before(f) for f in ('variables', 'trees', 'is_vscode')}
    vs = W['is_vscode']
    for n in C:
        got = 0
        for g0, ctx in C[n]:
            for c, a in rules.replies(S, s):
                for g, x in rules.pruned(a, AND(c, g0)):
                    rs = rules.aggs(x, 'CompletionResponse')
                    if not rs:
                        ok = n in ('Identifier', 'IncompleteIdentifier') and rules.implies(g, NOT(tm.is_some(tm.mget(W['variables'], uri)))) or n == 'IncludedTemplate' and no_root(g)
                        k.ob('answer:%s:%s' % (lang, n), ok, 'a %s context is answered with a list' % n, fn.name, rules.flat(x) + ' if ' + tm.shown(g, 2)[-200:])
                        continue
                    es = list(rules.elements(S, rs[0].a[2], g, on=s.on))
                    if n in ('Identifier', 'IncompleteIdentifier', 'IncludedTemplate'):
                        complete(k, S, s, n, g, es, ctx, W, uri, pos, fn, lang)
                    for bs, c2, y in es:
                        y = rules.deep(y, c2)
                        got += 1
                        if not k.ob('entry:%s:%s' % (lang, n), y.k == 'agg', 'an entry is made', fn.name, rules.flat(y)):
                            continue
                        entry(k, S, s, n, ctx, bs, c2, y, W, vs, uri, pos, fn, lang)
        k.floor('entries in %s context %s' % (lang, n), got, {'Filter': 20, 'Test': 20, 'Snippets': 5, 'Identifier': 2, 'IncompleteIdentifier': 2}.get(n, 1))


def complete(k, S, s, n, g, es, ctx, W, uri, pos, fn, lang):
    """nothing that belongs to the list is left out"""
    by = {}
    for bs, c, y in es:
        by.setdefault(bs, []).append(c)
    own = tm.payload(tm.mget(W['variables'], uri))
    t = tm.payload(tm.mget(W['trees'], tm.mk('agg', S.lang_adt, tm.VN[S.lang_adt].index('Template'))))
    seen = set()
    for bs, cs in by.items():
        el = bs[-1] if bs else None
        if el is None or el.k != 'elem':
            continue
        some = any_of(cs)
        if el.a[0] is own:
            seen.add('own')
            ty = rules.sel(el, ('Identifier', 'identifier_type'))
            vn = tm.VN[S.idtype_adt]
            vis = AND(AND(le(rules.sel(el, ('Identifier', 'end')), pos), le(pos, tup(rules.sel(el, ('Identifier', 'scope_ends')), 1))),
                      AND(NOT(tm.is_variant(ty, vn.index('TemplateBlock'), len(vn))), NOT(tm.is_variant(ty, vn.index('JinjaTemplate'), len(vn)))))
            free = [i for i in sup(some) if carried(S, ATOMS[i]) or prefix(ATOMS[i], el)]
            k.ob('complete:own:%s:%s' % (lang, n), rules.implies(AND(g, vis), bdd_forget(some, free)), 'every variable visible at the cursor is offered', fn.name)
            for i in free:
                repeated(k, S, ATOMS[i], el, vis, fn, '%s:%s' % (lang, n))
        elif len(bs) == 2 and el.a[0] is tup(bs[0], 1):
            seen.add('backend')
            ty = rules.sel(el, ('Identifier', 'identifier_type'))
            vn = tm.VN[S.idtype_adt]
            k.ob('complete:backend:%s:%s' % (lang, n), rules.implies(AND(g, tm.is_variant(ty, vn.index('BackendVariable'), len(vn))), some), 'every backend variable is offered', fn.name)
        elif el.a[0] is t:
            seen.add('template')
            free = [i for i in sup(some) if path_of(ATOMS[i], el)]
            k.ob('complete:template:%s:%s' % (lang, n), rules.implies(g, bdd_forget(some, free)), 'every template below the directory that contains the typed text is offered', fn.name)
            typed(k, g, some, payload(ctx, 'name'), free, fn, lang)
    want = {'template'} if n == 'IncludedTemplate' else {'own', 'backend'}
    k.ob('sources:%s:%s' % (lang, n), seen == want, 'the list has its sources', fn.name, str(sorted(seen)))


def typed(k, g, some, pre, free, fn, lang):
    """what a path has to contain to be offered is what is typed; when nothing is, every path contains it"""
    n = 0
    for i in free:
        t = ATOMS[i]
        while t.k == 'bool':
            t = t.a[0]
        if t.a[0] != 'contains':
            continue
        n += 1
        bad = []
        for c, p in rules.pruned(pre, g):
            e = tm.empty(p)
            for c2, x in rules.pruned(t.a[2], c):
                if AND(c2, NOT(e)) is not FALSE and x is not p:
                    bad.append(rules.flat(x))
                if AND(c2, e) is not FALSE and x is not p and not (is_lit(x) and x.a[0] in ('', '/')):
                    bad.append(rules.flat(x))
        k.ob('typed:' + lang, not bad, 'templates are offered by the text typed', fn.name, '; '.join(bad[:3]))
        k.ob('typed:only:' + lang, rules.implies(AND(g, some), atom(ATOMS[i])), 'only templates that contain the typed text are offered', fn.name)
    k.floor('templates chosen by the typed text', n, 1)


def bdd_forget(f, vs):
    import bdd
    return bdd.forget(f, set(vs))


def carried(S, t):
    """depends on what the loop did before (names offered already)"""
    return tm.contains(t, lambda x: x.k == 'lv' and x in S.a.lvinfo and x.a[1:] not in S.state)


def prefix(t, el):
    while t.k == 'bool':
        t = t.a[0]
    return t.k == 'call' and t.a[0] == 'starts_with' and t.a[1] is rules.sel(el, ('Identifier', 'name'))


def path_of(t, el):
    while t.k == 'bool':
        t = t.a[0]
    return t.k == 'call' and t.a[0] in ('bad_url', 'no_path', 'not_below', 'contains') and tm.contains(t.a[1], lambda x: x is tup(el, 0))


def repeated(k, S, t, el, vis, fn, key):
    """names kept as offered are names of visible variables"""
    if t.k != 'isv' or t.a[0].k != 'get' or t.a[0].a[0].k != 'lv':
        return
    import stores
    lv = t.a[0].a[0]
    init, step, bs = S.a.lvinfo[lv]
    k.ob('seen:empty:' + key, init.k in ('emap', 'eset') or init.k == 'seq' and not init.a, 'no name is offered before', fn.name, rules.flat(init))
    for e in stores.edits(S, step, lambda x: x is lv):
        own = [b for b in bs if b.k == 'elem']
        ok = e.op == 'put' and len(own) == 1 and e.key is rules.sel(own[0], ('Identifier', 'name')) and rules.implies(e.cond, rules.rewrite(vis, {el: own[0]}))
        k.ob('seen:' + key, ok, 'only the name of a visible variable counts as offered', fn.name, rules.flat(e.key) if e.key is not None else e.op)


def no_root(g):
    return any(b and t.k == 'bool' and t.a[0].k == 'call' and str(t.a[0].a[0]).startswith('no_canonical') for t, b in rules.literals(g).items())


def item(y, f):
    return rules.sel(y, ('CompletionItem', f))


def none(t):
    return t.k == 'agg' and t.a[0] == tm.OPT and len(t.a) == 2


def noedit(y):
    return none(item(y, 'text_edit')) and none(item(y, 'additional_text_edits')) and none(item(y, 'insert_text'))


def is_lit(t):
    return t.k == 'str'


def entry(k, S, s, n, ctx, bs, cond, y, W, vs, uri, pos, fn, lang):
    lab = item(y, 'label')
    at = fn.name
    key = lang + ':' + n
    if n in ('Filter', 'Test'):
        ship = c14.shipped(n)
        ok = is_lit(lab) and lab.a[0] in ship
        k.ob('list:' + key, ok, 'only built-in %ss are offered' % n.lower(), at, rules.flat(lab))
        k.ob('form:' + key, noedit(y), 'a %s is offered by its name' % n.lower(), at, rules.flat(y))
        return
    if n == 'Snippets':
        k.ob('list:' + key, not bs and is_lit(lab) and is_lit(tm.payload(item(y, 'detail'))), 'only built-in snippets are offered', at, rules.flat(lab))
        rng = payload(ctx, 'range')
        texts = {}
        for on, z in editors(y, vs):
            e = item(z, 'text_edit')
            f = item(z, 'insert_text_format')
            k.ob('snippet:' + key, marked(f), 'a snippet is marked as a snippet, so that its placeholders are filled in', at, rules.flat(f))
            if on:
                t = tm.payload(item(z, 'insert_text'))
                texts[on] = t
                k.ob('vscode:' + key, none(e) and none(item(z, 'additional_text_edits')) and is_lit(t), 'VS Code inserts the text of the snippet at the cursor', at, rules.flat(z))
            else:
                t = replaced(e)
                texts[on] = t[0] if t else None
                k.ob('edit:' + key, t is not None and is_lit(t[0]) and t[1] is rng and t[2] is rng, 'other editors replace the token by the snippet', at, rules.flat(e))
        k.ob('text:' + key, texts[True] is texts[False], 'every editor inserts the same text', at)
        return
    if n in ('Identifier', 'IncompleteIdentifier'):
        el = bs[-1] if bs else None
        if not k.ob('list:' + key, el is not None and el.k == 'elem' and lab is rules.sel(el, ('Identifier', 'name')), 'a variable is offered under its own name', at, rules.flat(lab)):
            return
        l = tm.mget(W['variables'], uri)
        if el.a[0] is tm.payload(l):
            if n == 'IncompleteIdentifier':
                pre = payload(ctx, 'name')
                f = tm.empty(pre)
                for g in (f, NOT(f)):
                    c = AND(cond, g)
                    if c is FALSE:
                        continue
                    z = y if rules.implies(cond, g) else rules.deep(y, c)
                    if noedit(z):
                        k.ob('prefix:none:' + key, rules.implies(c, f), 'a variable is offered plain only when nothing is typed yet', at)
                        continue
                    rng = rules.deep(payload(ctx, 'range'), c) if z is not y else payload(ctx, 'range')
                    sw = [t for t, b in rules.literals(c).items() if b and starts(t, lab, pre, c)]
                    k.ob('prefix:' + key, bool(sw), 'only variables that start with what is typed are offered', at, tm.shown(c, 2)[-200:])
                    forms(k, key, z, vs, rules.deep(lab, c) if z is not y else lab, rng, tm.field(rng, 'rng', 0, 0), at)
            else:
                k.ob('form:' + key, noedit(y), 'a variable is offered by its name', at, rules.flat(y))
        else:
            # backend variables of every file
            src = el.a[0]
            ok = len(bs) >= 2 and src is tup(bs[-2], 1) and bs[-2].k == 'elem' and bs[-2].a[0] is W['variables']
            k.ob('source:' + key, ok, 'variables come from the document or are backend variables', at, rules.flat(s.nice(src)))
            ty = rules.sel(el, ('Identifier', 'identifier_type'))
            w = tm.is_variant(ty, tm.VN[S.idtype_adt].index('BackendVariable'), len(tm.VN[S.idtype_adt]))
            k.ob('backend:' + key, rules.implies(cond, w), 'of other files only backend variables are offered', at)
            k.ob('form:' + key, noedit(y), 'a variable is offered by its name', at, rules.flat(y))
        return
    if n == 'IncludedTemplate':
        el = bs[-1] if bs else None
        t = tm.mget(W['trees'], tm.mk('agg', S.lang_adt, tm.VN[S.lang_adt].index('Template')))
        ok = len(bs) == 1 and el.k == 'elem' and el.a[0] is tm.payload(t)
        if not k.ob('list:' + key, ok, 'only known templates are offered', at, rules.flat(s.nice(el)) if el is not None else ''):
            return
        name = tup(el, 0)
        ok = lab.k == 'call' and tm.contains(lab, lambda x: x is name) and tm.contains(lab, lambda x: x.k == 'call' and x.a[0] == 'canonical')
        k.ob('label:' + key, ok, 'a template is offered by its path below the templates directory', at, rules.flat(s.nice(lab)))
        rng = payload(ctx, 'range')
        forms(k, key, y, vs, tm.cat(tm.S('"'), lab, tm.S('"')), rng, pos, at)
        return
    k.ob('unknown:' + key, False, 'a known context', at)


def marked(f):
    """the format Snippet"""
    f = tm.payload(f)
    return f is tm.I(2) or f.k == 'agg' and f.a[2:] == (tm.I(2),)


def starts(t, lab, pre, cond):
    while t.k == 'bool':
        t = t.a[0]
    return t.k == 'call' and t.a[0] == 'starts_with' and t.a[1] is lab and rules.deep(t.a[2], cond) is rules.deep(pre, cond)


def editors(y, vs):
    v = tm.nb(vs)
    i = list(sup(v))
    t = ATOMS[i[0]]
    for on in (True, False):
        yield on, rules.assume(y, {t: on})


def replaced(e):
    """(text, insert range, replace range) of an insert-and-replace edit"""
    l = rules.aggs(e, 'InsertReplaceEdit')
    if len(l) != 1 or e.k != 'agg' or rules.aggs(e, 'TextEdit'):
        return None
    return tuple(rules.sel(l[0], ('InsertReplaceEdit', f)) for f in ('new_text', 'insert', 'replace'))


def forms(k, key, y, vs, text, rng, at0, where):
    """the edit of an entry in both editors"""
    for on, z in editors(y, vs):
        e, add = item(z, 'text_edit'), item(z, 'additional_text_edits')
        if on:
            l = rules.aggs(e, 'TextEdit')
            ok = len(l) == 1 and not rules.aggs(e, 'InsertReplaceEdit')
            if ok:
                r, t = rules.sel(l[0], ('TextEdit', 'range')), rules.sel(l[0], ('TextEdit', 'new_text'))
                ok = tm.field(r, 'rng', 0, 0) is at0 and tm.field(r, 'rng', 0, 1) is at0 and t.k == 'str' and t.a[0] == ''
            k.ob('vscode:edit:' + key, ok, 'VS Code gets an empty edit at the token', where, rules.flat(e))
            l = rules.aggs(add, 'TextEdit')
            ok = len(l) == 1 and rules.sel(l[0], ('TextEdit', 'range')) is rng and rules.sel(l[0], ('TextEdit', 'new_text')) is text
            k.ob('vscode:additional:' + key, ok, 'VS Code gets the token replaced by an additional edit', where, rules.flat(add))
        else:
            t = replaced(e)
            k.ob('edit:' + key, t is not None and t[0] is text and t[1] is rng and t[2] is rng and none(add), 'other editors replace the token by the entry', where, rules.flat(e))
