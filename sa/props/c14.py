"""C14: built-in filters and tests are listed once, each with its own documentation."""
import glob
import os
import facts
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of, ATOMS, sup

RULE = ('The lists offered in the filter and in the test context are evaluated from the source to constants: labels must be '
        'unique, and (label, documentation) must be exactly the pages shipped in the directory of that list (file name = '
        'label, file content = documentation). The hover answer is specialised, in the filter and in the test context, '
        'to each name of the list: it must be the constant documentation of that entry, and no answer for any other name. '
        'The same is done for the filter list and the filter documentation of the Node binding.')

PAGES = {'Filter': ('jinja-lsp/src/filter/md/filters', ''), 'Test': ('jinja-lsp/src/template_tests/md', 'is_')}


def text(t):
    return t.a[0] if t.k == 'str' else None


def shipped(kind):
    d, pre = PAGES[kind]
    out = {}
    for p in sorted(glob.glob(os.path.join(facts.REPO, d, '*.md'))):
        n = os.path.splitext(os.path.basename(p))[0]
        with open(p, encoding='utf-8', newline='') as f:
            out[n[len(pre):] if n.startswith(pre) else n] = f.read()
    return out


def docs(item):
    """label and documentation text of an offered item"""
    lab = text(rules.sel(item, ('CompletionItem', 'label')))
    d = rules.sel(item, ('CompletionItem', 'documentation'))
    m = rules.aggs(d, 'MarkupContent')
    return lab, text(rules.sel(m[0], ('MarkupContent', 'value'))) if len(m) == 1 else None


def check(k):
    S = k.server()
    s = S.scene('Completion', 'html', True)
    C, fn = rules.contexts(S, s)
    lists = {}
    for kind in ('Filter', 'Test'):
        ship = shipped(kind)
        k.floor('shipped pages: ' + kind, len(ship), 20)
        if not k.ob('context:' + kind, kind in C, 'there is a %s context' % kind.lower(), fn.name):
            continue
        n = 0
        for c, v in rules.replies(S, s):
            for g, _ in C[kind]:
                for g2, x in rules.pruned(v, AND(c, g)):
                    n += 1
                    rs = rules.aggs(x, 'CompletionResponse')
                    if not k.ob('answered:' + kind, len(rs) == 1, 'the %s context is answered with a list' % kind.lower(), fn.name, rules.flat(x)):
                        continue
                    got = []
                    for bs, g3, y in rules.elements(S, rs[0].a[2], g2, on=s.on):
                        ok = not bs and g3 is g2 and y.k == 'agg'
                        if not k.ob('entry:' + kind, ok, 'the entries of the %s list are fixed' % kind.lower(), fn.name, rules.flat(y)):
                            continue
                        lab, doc = docs(y)
                        if k.ob('literal:%s:%s' % (kind, lab), lab is not None and doc is not None, 'an entry has its own label and documentation', fn.name, rules.flat(y)):
                            got.append((lab, doc))
                    names = [a for a, _ in got]
                    k.ob('unique:' + kind, len(set(names)) == len(names), 'every %s is listed once' % kind.lower(), fn.name, str(sorted(a for a in set(names) if names.count(a) > 1)))
                    for lab, doc in got:
                        k.ob('doc:%s:%s' % (kind, lab), lab in ship and ship[lab] == doc, '%s %s has the documentation shipped for it' % (kind.lower(), lab), PAGES[kind][0],
                             'not shipped' if lab not in ship else 'offered: %r' % doc[:80])
                    for nm in ship:
                        k.ob('offered:%s:%s' % (kind, nm), nm in names, 'the shipped page %s is offered' % nm, PAGES[kind][0])
                    lists[kind] = dict(got)
        k.floor('answers in context ' + kind, n, 1)
    hover(k, S, lists)
    node(k, lists)


def hover(k, S, lists):
    s = S.scene('Hover', 'html', True)
    C, fn = rules.contexts(S, s)
    ids = [v for g, v in rules.variants(fn.res, 'Identifier', fn.cond)]
    names = {rules.sel(v, ('Identifier', 'name')) for v in ids}
    if not k.ob('hover:name', len(names) == 1, 'hover looks up one name', fn.name, str(len(names))):
        return
    nm = names.pop()
    for kind, doc in sorted(lists.items()):
        flag = 'is_filter' if kind == 'Filter' else 'is_test'
        other = 'is_test' if kind == 'Filter' else 'is_filter'
        if not k.ob('hover:context:' + kind, kind in C, 'hover knows the %s context' % kind.lower(), fn.name):
            continue
        for g, _ in C[kind]:
            l = {t: b for t, b in rules.literals(g).items()}
            on = any(b and is_field(t, flag) for t, b in l.items())
            k.ob('hover:when:' + kind, on, 'only what was recognised as a %s is looked up among the %ss' % (kind.lower(), kind.lower()), fn.name,
                 tm.shown(g, 2)[-300:])
            for c, v in rules.replies(S, s):
                full = AND(c, g)
                found(k, 'hover:' + kind, full, v, nm, doc, fn.name)


def is_field(t, f):
    while t.k == 'bool':
        t = t.a[0]
    return t.k == 'f' and t.a[1] in tm.FN and tm.FN[t.a[1]][t.a[2]][t.a[3]] == f


def found(k, key, cond, v, nm, doc, where):
    """v is, under cond, the documentation of the entry named nm"""
    for n in list(doc) + [None]:
        def at(t, n=n):
            if t.k == 'eq':
                for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if a.k == 'str' and b is nm:
                        return a.a[0] == n
            return None
        memo = {}
        c = rules.assume_by(cond, at, memo)
        x = rules.assume_by(v, at, memo)
        for g, y in rules.pruned(x, c):
            y = rules.deep(y, g)
            m = rules.aggs(y, 'MarkupContent')
            if n is None:
                k.ob(key + ':none', not m and y.k == 'agg' and len(y.a) == 2, 'a name that is not listed has no documentation', where, rules.flat(y))
            else:
                t = text(rules.sel(m[0], ('MarkupContent', 'value'))) if len(m) == 1 else None
                k.ob('%s:%s' % (key, n), t == doc[n], 'the documentation shown for %s is its own' % n, where, rules.flat(y))


def node(k, lists):
    N = k.node()
    new = N.exports['new'][0]
    holder = new.a[0] if new.k == 'agg' else None
    fields = [f for f in tm.FN.get(holder, [[]])[0] if f == 'filters']
    if not k.ob('node:list', bool(fields), 'the binding keeps the filter list', 'new', rules.flat(new)):
        return
    got = {}
    names = []
    for bs, g, x in rules.elements(N, rules.sel(new, (holder.split('::')[-1], 'filters'))):
        t = [text(y) for y in x.a[2:]] if x.k == 'agg' else [None]
        if k.ob('node:literal:%s' % t[0], len(t) == 2 and None not in t and g is TRUE and not bs, 'the entries of the list are fixed', 'new', rules.flat(x)):
            names.append(t[0])
            got[t[0]] = t[1]
    k.ob('node:same', got == lists.get('Filter') and len(names) == len(got), 'the binding offers the same filters with the same documentation', 'new')
    adt = [p for p in tm.VN if p.split('::')[-1] == 'CompletionType'][0]
    recv = rules.sel(tm.sym('self'), (holder.split('::')[-1], 'filters'))
    # completion
    n = 0
    for g, v in branch(N, 'complete', adt):
        for it in rules.aggs(v, 'JsCompletionItem'):
            n += 1
        lst = [x for x in rules.tm.subterms(v) if x.k in ('seq', 'lv')]
        ok = False
        x = v.a[2] if v.k == 'agg' and len(v.a) == 3 else v
        for bs, g2, y in rules.elements(N, x):
            e = bs[0] if len(bs) == 1 else None
            ok = (e is not None and e.k == 'elem' and e.a[0] is recv and g2 is TRUE and y.k == 'agg' and
                  rules.sel(y, ('JsCompletionItem', 'label')) is part(recv, e, 0) and rules.sel(y, ('JsCompletionItem', 'description')) is part(recv, e, 1))
            k.ob('node:complete', ok, 'each filter is offered with its own documentation', 'complete', rules.flat(y))
    k.floor('node filter items', n, 1)
    # hover
    n = 0
    for g, v in branch(N, 'hover', adt):
        for h in rules.aggs(v, 'JsHover'):
            n += 1
            x = rules.sel(h, ('JsHover', 'value'))
            k.ob('node:hover', by_name(recv, x), 'the documentation shown is that of the filter with that name', 'hover', rules.flat(x))
    k.floor('node filter hovers', n, 1)


def ftype(recv):
    c = [p for p in tm.FN if p.split('::')[-1] == 'FilterCompletion']
    if len(c) != 1:
        raise rules.Missing('FilterCompletion')
    return c[0]


def part(recv, e, i):
    return tm.field(e, ftype(recv), 0, i)


def branch(N, export, adt):
    """[(condition, answer)] of an export in the filter context"""
    v = N.exports[export][0]
    ev = [x for x in N.events if x.kind == 'local' and x.ctx and x.ctx[0][0] == 'export' and x.ctx[0][1] == export and isinstance(x.res, tm.T)
          and any(True for _ in rules.variants(x.res, 'CompletionType'))]
    ev = [x for x in ev if all(AND(y.cond, NOT(x.cond)) is FALSE for y in ev)]
    if not ev:
        raise rules.Missing('the context in ' + export)
    out = []
    for g, y in rules.variants(ev[-1].res, 'CompletionType', ev[-1].cond):
        if tm.VN[adt][y.a[1]] == 'Filter':
            for g2, x in rules.pruned(v, g):
                out.append((g2, rules.deep(x, g2)))
    return out


def by_name(recv, x):
    """x is the documentation of the entry of the list with the name looked up"""
    if x.k != 'f' or x.a[1] != ftype(recv) or x.a[3] != 1:
        return False
    f = x.a[0]
    if f.k == 'f' and tm.payload(f.a[0]) is f:
        f = f.a[0]
    if f.k != 'find':
        return False
    bs, c, v = f.a[:3] if isinstance(f.a[0], tuple) else (None, None, None)
    if bs is None or len(bs) != 1 or bs[0].k != 'elem' or bs[0].a[0] is not recv or v is not bs[0]:
        return False
    s = [ATOMS[i] for i in sup(c)]
    return len(s) == 1 and c is atom(s[0]) and s[0].k == 'eq' and any(y is part(recv, bs[0], 0) for y in s[0].a[:2])
