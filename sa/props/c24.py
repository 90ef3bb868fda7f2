"""C24: kinds, severities and messages are presented consistently everywhere."""
import re
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of

RULE = ('At every place that presents a definition (document symbols, completion items, hover, and the values the Node '
        'binding returns) the presented icon or description is specialised to each kind of definition that can get '
        'there; the value must be a constant, the same constant everywhere, with icons of completion and symbols '
        'naming the same thing, descriptions pairwise different and naming their own kind. The severity and message of '
        'every published diagnostic are specialised to each kind of problem in the same way, and JavaScript kinds to '
        'the kind of the same name.')

# completion item kinds and symbol kinds of the protocol, by name
COMPLETION = {1: 'Text', 2: 'Method', 3: 'Function', 4: 'Constructor', 5: 'Field', 6: 'Variable', 7: 'Class', 8: 'Interface', 9: 'Module', 10: 'Property',
              11: 'Unit', 12: 'Value', 13: 'Enum', 14: 'Keyword', 15: 'Snippet', 16: 'Color', 17: 'File', 18: 'Reference', 19: 'Folder',
              20: 'EnumMember', 21: 'Constant', 22: 'Struct', 23: 'Event', 24: 'Operator', 25: 'TypeParameter'}
SYMBOL = {1: 'File', 2: 'Module', 3: 'Namespace', 4: 'Package', 5: 'Class', 6: 'Method', 7: 'Property', 8: 'Field', 9: 'Constructor', 10: 'Enum',
          11: 'Interface', 12: 'Function', 13: 'Variable', 14: 'Constant', 15: 'String', 16: 'Number', 17: 'Boolean', 18: 'Array', 19: 'Object',
          20: 'Key', 21: 'Null', 22: 'EnumMember', 23: 'Struct', 24: 'Event', 25: 'Operator', 26: 'TypeParameter'}
# what each kind of definition is
ICON = {'ForLoopKey': 'Variable', 'ForLoopValue': 'Variable', 'ForLoopCount': 'Field', 'SetVariable': 'Variable', 'WithVariable': 'Variable',
        'MacroName': 'Function', 'MacroParameter': 'Field', 'TemplateBlock': 'Module', 'BackendVariable': 'Variable',
        'UndefinedVariable': 'Constant', 'JinjaTemplate': 'File'}
SEVERITY = {'DefinedSomewhere': 3, 'Undefined': 2, 'TemplateNotFound': 2}


def plain(t):
    """an optional or newtype wrapped literal"""
    while t.k == 'agg' and len(t.a) == 3:
        t = t.a[2]
    if t.k in ('int', 'str'):
        return t.a[0]
    return None


def words(name):
    return [w.lower() for w in re.findall('[A-Z][a-z]*', name)]


class Table(object):
    """kind -> {value: where}"""
    def __init__(self, k, what):
        self.k, self.what, self.t = k, what, {}

    def add(self, kind, val, where, t=''):
        v = plain(val)
        if self.k.ob('fixed:%s:%s:%s' % (self.what, kind, where), v is not None, 'the %s of a %s is fixed' % (self.what, kind), where, rules.flat(val)):
            self.t.setdefault(kind, {}).setdefault(v, where)

    def one(self):
        out = {}
        for kind, vs in sorted(self.t.items()):
            self.k.ob('same:%s:%s' % (self.what, kind), len(vs) == 1, 'a %s has the same %s everywhere' % (kind, self.what), ' / '.join(sorted(vs.values())), str(vs)[:300])
            out[kind] = sorted(vs, key=str)[0]
        return out


def subjects(x, adt, S):
    """terms whose kind decides between the cases of the value"""
    from bdd import sup, ATOMS
    out = set()
    for g, y in tm.cases(x):
        for i in sup(g):
            t = ATOMS[i]
            if t.k == 'isv' and t.a[0].k == 'f' and t.a[0].a[1].split('::')[-1] == 'Identifier' and tm.FN[t.a[0].a[1]][0][t.a[0].a[3]] == 'identifier_type':
                out.add(t.a[0])
    return out


def kinds(k, table, S, val, subject, adt, cond, where):
    for kind, v in rules.by_kind(S, val, subject, adt, cond).items():
        table.add(kind, v, where)


def check(k):
    S = k.server()
    IT = S.idtype_adt
    desc, comp, symb = Table(k, 'description'), Table(k, 'completion icon'), Table(k, 'symbol icon')
    n = 0
    # document symbols
    s = S.scene('DocumentSymbol', None)
    for c, v in rules.replies(S, s):
        for d in rules.aggs(v, 'DocumentSymbol'):
            n += 1
            kinds(k, symb, S, rules.sel(d, ('DocumentSymbol', 'kind')), kind_of(k, d, 'DocumentSymbol', 'name'), IT, TRUE, 'document symbols')
    # completion
    s = S.scene('Completion', 'html', True)
    m = 0
    for c, v in rules.replies(S, s):
        for r in rules.aggs(v, 'CompletionResponse'):
            for bs, g, x in rules.elements(S, r.a[2], c, on=s.on):
                if x.k != 'agg':
                    continue
                sub = kind_of(k, x, 'CompletionItem', 'label')
                if sub is None:
                    continue
                m += 1
                kinds(k, comp, S, rules.sel(x, ('CompletionItem', 'kind')), sub, IT, g, 'completion')
                kinds(k, desc, S, rules.sel(x, ('CompletionItem', 'detail')), sub, IT, g, 'completion')
    # hover
    h = 0
    s = S.scene('Hover', 'html', True)
    for c, v in rules.replies(S, s):
        for x in rules.aggs(v, 'MarkupContent'):
            val = rules.sel(x, ('MarkupContent', 'value'))
            for sub in subjects(val, IT, S):
                for kind, y in decided(val, sub, IT):
                    h += 1
                    desc.add(kind, y, 'hover')
    # the tables of the kinds themselves
    for nm, t in (('completion_detail', desc), ('completion_kind', comp), ('symbol_kind', symb)):
        ks = [b for b in S.prog.bodies if b.startswith(IT) and b.split('::')[-1] == nm]
        for b in ks:
            S.a.ctx = (('table', nm),)
            e0 = len(S.a.events)
            v, c, st = S.a.entry(b, [tm.sym('kind')])
            k.ob('total:' + nm, c is TRUE, '%s is defined for every kind' % nm, b, tm.shown(c, 3)[:300])
            kinds(k, t, S, v, tm.sym('kind'), IT, TRUE, b)
    k.floor('symbols', n, 1)
    k.floor('completion items of variables', m, 2)
    k.floor('descriptions in hover', h, 5)
    D, C, Y = desc.one(), comp.one(), symb.one()
    for kind in tm.VN[IT]:
        k.ob('icons:' + kind, kind not in C or kind not in Y or COMPLETION.get(C[kind]) == SYMBOL.get(Y[kind]), 'a %s has the same icon in completion and symbols' % kind, '',
             '%s / %s' % (COMPLETION.get(C.get(kind)), SYMBOL.get(Y.get(kind))))
        if kind in ICON:
            k.ob('icon:' + kind, SYMBOL.get(Y.get(kind)) == ICON[kind], 'a %s is shown as a %s' % (kind, ICON[kind].lower()), '', str(SYMBOL.get(Y.get(kind))))
        d = D.get(kind)
        if not k.ob('described:' + kind, bool(d), 'a %s has a description' % kind):
            continue
        w = d.lower().split()
        own = words(kind)
        k.ob('names:' + kind, bool(w) and all(x in own for x in w), 'the description of a %s names it' % kind, '', d)
        for other in tm.VN[IT]:
            if other != kind and other in D:
                k.ob('distinct:%s:%s' % tuple(sorted((kind, other))), D[other] != d, '%s and %s have different descriptions' % (kind, other), '', d)
                ow = D[other].lower().split()
                k.ob('fits:%s:%s' % (kind, other), len(set(own) & set(w)) >= len(set(own) & set(ow)), 'no other description fits a %s better' % kind, '', '%s / %s' % (d, D[other]))
    problems(k, S)
    node(k, D)


def decided(val, sub, adt):
    """(kind, value) where the kind has a say in the value"""
    for g, y in tm.cases(val):
        per = {kind: rules.assume(g, rules.variant_lits(sub, adt, kind)) for kind in tm.VN[adt]}
        rest = TRUE
        for c in per.values():
            rest = AND(rest, c)
        for kind, c in per.items():
            if AND(c, NOT(rest)) is not FALSE:
                yield kind, rules.assume(y, rules.variant_lits(sub, adt, kind))


def kind_of(k, d, ty, f):
    """the kind of the definition an item was made of: that of the definition whose name it bears"""
    nm = rules.sel(d, (ty, f))
    if nm.k == 'f' and nm.a[1].split('::')[-1] == 'Identifier' and tm.FN[nm.a[1]][0][nm.a[3]] == 'name':
        return rules.sel(nm.a[0], ('Identifier', 'identifier_type'))
    return None


def problems(k, S):
    ch, ctx, recv = S.diag
    JD = S.jdiag_adt
    sev, msg = Table(k, 'severity'), Table(k, 'message')
    n = 0
    for e in S.events:
        if e.kind == 'call' and e.name.split('::')[-1] == 'publish_diagnostics':
            for d in rules.aggs(e.args[2], 'Diagnostic'):
                a, b = rules.sel(d, ('Diagnostic', 'severity')), rules.sel(d, ('Diagnostic', 'message'))
                subs = {t.a[0] for x in (a, b) for t in tm.subterms(x) if t.k == 'isv' and tm.contains(t.a[0], lambda y: y is tm.payload(recv))}
                if not k.ob('problem:subject', len(subs) == 1, 'the kind of the problem decides severity and message', e.span, rules.flat(d)):
                    continue
                n += 1
                sub = list(subs)[0]
                kinds(k, sev, S, a, sub, JD, TRUE, e.fn())
                kinds(k, msg, S, b, sub, JD, TRUE, e.fn())
    k.floor('diagnostics', n, 1)
    A, M = sev.one(), msg.one()
    for kind in tm.VN[JD]:
        if kind in SEVERITY:
            k.ob('severity:' + kind, A.get(kind) == SEVERITY[kind], '%s has its severity' % kind, '', str(A.get(kind)))
        m = M.get(kind)
        if k.ob('message:' + kind, bool(m), '%s has a message' % kind):
            own = [w for w in words(kind)]
            w = re.findall('[a-z]+', m.lower())
            k.ob('says:' + kind, any(x in w for x in own), 'the message of %s names it' % kind, '', m)
            for other in tm.VN[JD]:
                if other != kind and other in M:
                    ow = re.findall('[a-z]+', M[other].lower())
                    k.ob('differ:%s:%s' % tuple(sorted((kind, other))), M[other] != m, '%s and %s have different messages' % (kind, other), '', m)
                    k.ob('best:%s:%s' % (kind, other), len(set(own) & set(w)) >= len(set(own) & set(ow)), 'no other message fits %s better' % kind, '', '%s / %s' % (m, M[other]))


def node(k, D):
    N = k.node()
    IT = [p for p in tm.VN if p.split('::')[-1] == 'IdentifierType' and p.startswith('jinja_lsp_queries')][0]
    n = 0
    for m, (v, c, st, evs, key) in sorted(N.exports.items()):
        for x in rules.aggs(v, 'JsIdentifier'):
            kt = rules.sel(x, ('JsIdentifier', 'identifier_type'))
            src = kind_of(k, x, 'JsIdentifier', 'name')
            if src is None:
                # no definition: a link between fragments
                k.ob('js-link:' + m, kt.k == 'agg' and tm.VN[kt.a[0]][kt.a[1]] == 'Link', 'what is no definition is shown as a link', key, rules.flat(kt))
                continue
            n += 1
            js(k, m, kt, src, IT, key)
        # descriptions used in hover are the same
        for x in rules.aggs(v, 'JsHover'):
            for t in tm.subterms(rules.sel(x, ('JsHover', 'value'))):
                if t.k == 'gv' and sum(y.k == 'str' for g, y in t.a) > 3:
                    for sub in subjects(t, IT, None):
                        for kind, val in decided(t, sub, IT):
                            p = plain(val)
                            if p is not None:
                                k.ob('js-description:%s:%s' % (m, kind), p == D.get(kind), 'the Node binding describes a %s the same' % kind, key, '%s / %s' % (p, D.get(kind)))
        if rules.aggs(v, 'JsCompletionItem'):
            for g0, y in tm.cases(v):
                if y is tm.NONE or tm.is_some(y) is FALSE:
                    continue
                for bs, g, x in rules.elements(N, tm.payload(y), g0):
                    src = kind_of(k, x, 'JsCompletionItem', 'label') if x.k == 'agg' else None
                    if src is None:
                        continue
                    dt = rules.sel(x, ('JsCompletionItem', 'description'))
                    if not tm.contains(dt, lambda t: t is src):
                        continue
                    for kind, val in rules.by_kind(None, dt, src, IT, g).items():
                        k.ob('js-description:%s:%s' % (m, kind), plain(val) == D.get(kind), 'the Node binding describes a %s the same' % kind, key, '%s / %s' % (rules.flat(val), D.get(kind)))
    conv = [b for b in N.prog.bodies if 'JsIdentifierType as core::convert::From<' in b and b.endswith('::from')]
    for b in conv:
        N.ctx = (('table',),)
        v, c, st = N.entry(b, [tm.sym('kind')])
        n += 1
        js(k, 'conversion', v, tm.sym('kind'), IT, b)
    k.floor('conversions to JavaScript', n, 2)


def js(k, m, kt, src, IT, key):
    for kind, val in rules.by_kind(None, kt, src, IT).items():
        ok = val.k == 'agg' and val.a[0] in tm.VN and tm.VN[val.a[0]][val.a[1]] == kind
        k.ob('js:%s:%s' % (m, kind), ok, 'a %s is a %s in JavaScript' % (kind, kind), key, rules.flat(val))
