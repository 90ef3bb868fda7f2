"""C19: a template name means the same file in diagnostics, definition and creation."""
import models
import rules
import terms as tm
from props import c20, c21
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, mapatoms, ATOMS, sup

RULE = ('Every path made from a template name is derived as a value: the one the missing-template check looks up, the one '
        'go-to-definition leads to and the one the create-template action creates. Each must be the configured templates '
        'directory with the components of that name appended. The condition under which a missing template is reported '
        'is compared, as a boolean function, with "a template reference whose name is empty or whose path does not '
        'exist", and the references looked at with all references the document makes.')


def name_of(x):
    return rules.sel(x, ('Identifier', 'name'))


def parts_of(t, name):
    """t holds the components of the name, in order"""
    if t.k == 'call' and t.a[0] == 'split' and t.a[1] is name and (t.a[2].k == 'int' and t.a[2].a[0] == ord('/') or t.a[2].k == 'str' and t.a[2].a[0] == '/'):
        return True
    c = rules.comp(t)
    if c is None or len(c[0]) != 1 or c[0][0].k != 'elem' or c[0][0].a[0] is t or not parts_of(c[0][0].a[0], name):
        return False
    # leaving out empty components changes nothing
    return c[2] is c[0][0] and rules.implies(NOT(c[1]), tm.empty(c[0][0]))


def path_of(t, bases, name):
    """t is the templates directory with the components of the name appended"""
    return t.k == 'call' and t.a[0] == 'join_path' and any(t.a[1] is b for b in bases) and parts_of(t.a[2], name)


def missing(t, bases, name):
    """atom: that path doesn't exist"""
    return t.k == 'bool' and isinstance(t.a[0], tm.T) and t.a[0].k == 'call' and t.a[0].a[0] == 'no_canonical' and path_of(t.a[0].a[1], bases, name)


def is_template(S, x):
    vn = tm.VN[S.idtype_adt]
    return tm.is_variant(rules.sel(x, ('Identifier', 'identifier_type')), vn.index('JinjaTemplate'), len(vn))


def bases_of(S, s):
    """the configured templates directory, as the worker has it"""
    out = set()
    for place, fields in c20.configs(S).items():
        if 'templates' in fields:
            out.add(fields['templates'][0])
    return out


def check(k):
    S = k.server()
    reported(k, S)
    goto(k, S)
    create(k, S)


# ---------------------------------------------------------------- what is reported
def lists(S, s):
    """(condition, binders, uri, list of problems, event) of everything sent to the diagnostics worker"""
    for e in s.events:
        if not rules.is_send(e):
            continue
        for c, v in rules.pruned(e.args[1], e.cond):
            if v.k != 'agg' or v.a[0] != S.diag_adt or tm.VN[S.diag_adt][v.a[1]] != 'Errors':
                continue
            for r in entries(S, v.a[2], c):
                yield r + (e,)


def entries(S, m, c, bs=()):
    if m.k == 'gv':
        for g, x in m.a:
            if AND(c, g) is not FALSE:
                for r in entries(S, x, AND(c, g), bs):
                    yield r
    elif m.k == 'put':
        for r in entries(S, m.a[0], c, bs):
            yield r
        yield c, bs, m.a[1], m.a[2]
    elif m.k == 'mfor':
        for r in entries(S, m.a[1], c, bs):
            yield r
        yield AND(c, m.a[2]), bs + tuple(m.a[0]), m.a[3], m.a[4]
    elif m.k == 'emap':
        return
    else:
        yield c, bs, None, m


def reported(k, S):
    nm = tm.VN[S.jdiag_adt].index('TemplateNotFound')
    n = {'html': 0, 'rs': 0}
    for variant in S.variants:
        for ext in ('html', 'rs'):
            s = S.scene(variant, ext, True)
            bases = bases_of(S, s)
            for c, mb, uri, lst, e in lists(S, s):
                where = '%s (%s)' % (variant, ext)
                if mb and ext != 'html':
                    continue    # the scan goes through the templates
                if not k.ob('list:' + where, uri is not None, 'the problems of a document are listed', e.span, rules.flat(lst)):
                    continue
                groups = {}
                for bs, g, y in rules.elements(S, lst, c, on=s.on):
                    if y.k != 'agg' or len(y.a) != 4:
                        k.ob('problem:' + where, False, 'a problem is made', e.span, rules.flat(y))
                        continue
                    t = AND(g, any_of([h for h, v in rules.pruned(y.a[2], g) if v.k != 'agg' or v.a[1] == nm]))
                    if t is FALSE:
                        continue
                    groups.setdefault((bs, y.a[3]), []).append(t)
                for (bs, ident), gs in groups.items():
                    n[ext] += 1
                    one(k, S, s, where, any_of(gs), c, uri, ident, bases, e)
                if groups:
                    sources(k, S, s, where, list(groups), ext, e)
    k.floor('missing-template checks in templates', n['html'], 2)
    k.floor('missing-template checks in backend files', n['rs'], 2)


def one(k, S, s, where, g, c, uri, ident, bases, e):
    name = name_of(ident)
    gone = [ATOMS[i] for i in sup(g) if missing(ATOMS[i], bases, name)]
    if not k.ob('path:' + where, len(gone) >= 1, 'the path of the name below the templates directory is looked up', e.span, tm.shown(g, 3)[-300:]):
        return
    want = AND(is_template(S, ident), OR(tm.empty(name), any_of([atom(t) for t in gone])))
    k.ob('only:' + where, rules.implies(g, want), 'only a template reference that is empty or whose file does not exist is reported', e.span, tm.shown(g, 3)[-300:])
    memo = {}
    want = AND(want, access(S, ident))
    c2, g2 = (rules.assume_by(x, lambda t: analysable(t, uri), memo) for x in (c, g))
    k.ob('every:' + where, c2 is not FALSE and rules.implies(AND(c2, want), g2), 'every template reference that is empty or whose file does not exist is reported', e.span, tm.shown(AND(AND(c2, want), NOT(g2)), 3)[-300:])


def access(S, x):
    """the parts of an import the value is taken from are there"""
    adt = S.adt('Import')
    f = TRUE
    for t in tm.subterms(x):
        if t.k == 'f' and t.a[1] == adt:
            f = AND(f, tm.is_variant(t.a[0], t.a[2], len(tm.VN[adt])))
    return f


def analysable(t, uri):
    """atoms that hold of a known document whose text can be analysed"""
    if t.k == 'isv' and t.a[0].k == 'get' and t.a[0].a[1] is uri:
        return t.a[1] == 1
    if c21.fails(t):
        return False
    while t.k == 'bool' and isinstance(t.a[0], tm.T):
        t = t.a[0]
    if t.k == 'f' and t.a[1].split('::')[-1] == 'Snippets' and tm.FN[t.a[1]][0][t.a[3]] == 'is_error':
        return False
    if t.k == 'call' and t.a[0] == 'bad_query':
        return False
    return None


def sources(k, S, s, where, groups, ext, e):
    """the references looked at are all those the document makes"""
    want = 'templates_query' if ext == 'html' else 'backend_templates_query'
    seen = []
    for bs, i in groups:
        if i.k == 'elem':
            for bs, g, v in rules.elements(S, i.a[0], TRUE, on=s.on):
                seen.append((bs, g, v))
        else:
            seen.append((bs, access(S, i), i))
    rel = [(bs, g, v) for bs, g, v in seen if any(t.k == 'call' and str(t.a[0]).split('::')[-1] == want for b in bs for t in tm.subterms(b))]
    if not k.ob('references:' + where, bool(rel), 'the template references of the document are looked at', e.span, str([rules.flat(v, 80) for b, g, v in seen])[:300]):
        return
    if ext != 'html':
        ok = any(v is bs[-1] and g is TRUE and str(v.a[0].a[1]).split('::')[-1] == 'BackendTemplates' for bs, g, v in rel if v.k == 'elem' and v.a[0].k == 'f')
        k.ob('references:all:' + where, ok, 'every reference of the document is looked at', e.span, str([rules.flat(v, 200) for b, g, v in rel])[:300])
        return
    adt = S.adt('Import')
    for i, vn in enumerate(tm.VN[adt]):
        ok = False
        for bs, g, v in rel:
            imp = [t for t in tm.subterms(v) if t.k == 'f' and t.a[1] == adt and t.a[2] == i]
            f = [tm.FN[adt][i][t.a[3]] for t in imp]
            owner = imp[0].a[0] if imp else None
            if not imp or owner is None:
                continue
            ok |= f[0] in ('template', 'templates') and (v is imp[0] or v.k == 'elem' and v.a[0] is imp[0]) and rules.implies(tm.is_variant(owner, i, len(tm.VN[adt])), g)
        k.ob('references:%s:%s' % (vn, where), ok, 'the template of every %s is looked at' % vn.lower(), e.span, str([rules.flat(v, 200) for b, g, v in rel])[:300])


# ---------------------------------------------------------------- where definition leads
def goto(k, S):
    for ext, q in (('html', 'Import'), ('rs', 'BackendTemplates')):
        s = S.scene('GoToDefinition', ext, True)
        bases = bases_of(S, s)
        where = 'go to definition (%s)' % ext
        tdp = rules.sel(s.param(0), ('GotoDefinitionParams', 'text_document_position_params'))
        uri = rules.sel(tdp, ('TextDocumentPositionParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
        pos = rules.sel(tdp, ('TextDocumentPositionParams', 'position'))
        leads, own, n = {}, FALSE, 0
        for c, v in rules.replies(S, s):
            for g, x in rules.pruned(v, c):
                for l in rules.aggs(x, 'Location'):
                    u = rules.sel(l, ('Location', 'uri'))
                    for h, y in rules.pruned(u, g):
                        if y is uri:
                            own = OR(own, h)
                        for t in tm.subterms(y):
                            if t.k == 'call' and t.a[0] == 'join_path':
                                n += 1
                                ok = y.k == 'call' and y.a[0] == 'furl' and y.a[1].k == 'call' and y.a[1].a[0] == 'canonical' and y.a[1].a[1] is t
                                name = ref_name(S, t)
                                ok = k.ob('goto:url:' + ext, ok, 'definition leads to the file of that path', where, rules.flat(s.nice(y)))
                                if k.ob('goto:path:' + ext, name is not None and path_of(t, bases, name), 'definition leads to the path of the name below the templates directory', where, rules.flat(s.nice(t))) and ok:
                                    leads[t] = (name, OR(leads.get(t, (0, FALSE))[1], h))
        k.floor('definition of a template name (%s)' % ext, n, 1)
        if not k.ob('goto:one:' + ext, len(leads) == 1, 'a template name leads to one path', where, str(len(leads))):
            continue
        path, (name, F) = list(leads.items())[0]
        gone = atom(tm.mk('bool', tm.mk('call', 'no_canonical', path)))
        every = FALSE
        for h, x in tm.cases(name):
            ref = x.a[0]
            k.ob('goto:at:' + ext, inside(ref, AND(F, h), pos), 'definition leads to a template only from its name', where, rules.flat(s.nice(ref)))
            every = OR(every, AND(h, there(S, ref, pos)))
        if ext == 'html':
            adt = S.adt('Import')
            for i, vn in enumerate(tm.VN[adt]):
                ok = any(t.k == 'f' and t.a[1] == adt and t.a[2] == i for h, x in tm.cases(name) for t in tm.subterms(x))
                k.ob('goto:of:' + vn, ok, 'definition works on the template of every %s' % vn.lower(), where)
        memo = {}
        spec, F = (rules.assume_by(f, lambda t: analysable(t, uri) or rules.trees_have(S, t), memo) for f in one_name(AND(AND(every, NOT(gone)), NOT(own)), F))
        k.ob('goto:every:' + ext, rules.implies(spec, F), 'definition on the name of an existing template leads to it', where, tm.shown(AND(spec, NOT(F)), 3)[-300:])


def one_name(*fs):
    """conditions with the elements that 'some element is such that' speaks of named in one way"""
    def on(i):
        t = ATOMS[i]
        if t.k == 'exists' and any(not isinstance(b.a[1], str) for b in t.a[0]):
            bs, r = tm.canon_binders(t.a[0], t.a[1])
            return tm.exists(bs, tm.subst(t.a[1], r))
        return atom(t)
    return [mapatoms(f, on) for f in fs]


def at(ref, pos):
    return AND(NOT(models.lexlt(pos, rules.sel(ref, ('Identifier', 'start')))), NOT(models.lexlt(rules.sel(ref, ('Identifier', 'end')), pos)))


def inside(ref, h, pos):
    """the cursor is at the reference, by the condition or because the reference was searched for that way"""
    if rules.implies(h, at(ref, pos)):
        return True
    if ref.k == 'find':
        return rules.implies(ref.a[1], at(ref.a[2], pos))
    if ref.k == 'f' and isinstance(ref.a[0], tm.T) and ref.a[0].k == 'find':
        return rules.implies(ref.a[0].a[1], at(ref.a[0].a[2], pos))
    return False


def there(S, ref, pos):
    """the condition that the cursor is at the reference and the reference is there"""
    f = TRUE
    found = False
    for t in tm.subterms(ref):
        if t.k == 'find':
            found = True
            f = AND(f, tm.exists(t.a[0], t.a[1]))
        elif t.k == 'get':
            f = AND(f, tm.is_some(t))
        elif t.k == 'f' and t.a[1].split('::')[-1] == 'Current':
            f = AND(f, tm.is_variant(t.a[0], t.a[2], len(tm.VN[t.a[1]])))
        elif t.k == 'f' and t.a[1] == S.adt('Import'):
            f = AND(f, tm.is_variant(t.a[0], t.a[2], len(tm.VN[t.a[1]])))
        elif t.k == 'call' and t.a[0] == 'last':
            f = AND(f, NOT(models.empty(t.a[1])))
    return f if found else AND(f, at(ref, pos))


def ref_name(S, p):
    """the reference name the path is made of"""
    for t in tm.subterms(p.a[2]):
        if t.k == 'call' and t.a[0] == 'split':
            name = t.a[1]
            vals = [x for g, x in tm.cases(name)]
            ok = bool(vals)
            for x in vals:
                ok = ok and x.k == 'f' and x.a[1] == S.adt('Identifier') and tm.FN[x.a[1]][0][x.a[3]] == 'name' and \
                    tm.contains(x, lambda y: y.k == 'call' and str(y.a[0]).split('::')[-1] in ('templates_query', 'backend_templates_query'))
            return name if ok else None
    return None


# ---------------------------------------------------------------- what is created
def create(k, S):
    for ext in ('html', 'rs'):
        s = S.scene('CodeAction', ext, True)
        bases = bases_of(S, s)
        bases |= {tm.mk('call', 'canonical', b) for b in bases}
        n = 0
        for c, v in rules.replies(S, s):
            for g, x in rules.pruned(v, c):
                for f in rules.aggs(x, 'CreateFile'):
                    n += 1
                    u = rules.sel(f, ('CreateFile', 'uri'))
                    u = rules.deep(u, g)
                    offers = {t for t in tm.subterms(u) if t.k == 'f' and t.a[1] == S.adt('Identifier') and tm.FN[t.a[1]][0][t.a[3]] == 'name'}
                    ok = u.k == 'call' and u.a[0] == 'furl' and len(offers) == 1 and path_of(u.a[1], bases, list(offers)[0])
                    if not k.ob('create:path:' + ext, ok, 'the path of the reported name below the templates directory is created', 'code action (%s)' % ext, rules.flat(s.nice(u))):
                        continue
                    kept = s.before('code_actions')
                    k.ob('create:name:' + ext, tm.contains(list(offers)[0], lambda t: t is kept), 'the name is that of a reported problem', 'code action (%s)' % ext, rules.flat(s.nice(u)))
        k.floor('create actions (%s)' % ext, n, 1)
