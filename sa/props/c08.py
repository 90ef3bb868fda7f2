"""C08: published diagnostics are exactly the computed problems of that document."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of

RULE = ('In the diagnostics worker the published list is compared, as a term, with the received problems: published '
        'for every entry of the received map, to the URI that is its key, one diagnostic per problem in order and '
        'without a condition, with the range of that problem, and severity and message that depend on its kind only. '
        'The create-template offers sent back are one list per entry, under the same key, of exactly the problems whose '
        'kind is a missing template, and the worker stores that list under that key.')


def leaves_only(t, allowed):
    """every symbolic leaf of t is (part of) an allowed term"""
    out = []
    seen = set()

    def go(x):
        if isinstance(x, tm.T):
            if x in seen or x in allowed:
                return
            seen.add(x)
            if x.k in ('lv', 'sym', 'elem') and x not in allowed:
                out.append(x)
                return
            if x.k == 'call' and not x.a[1:]:
                return
            for y in x.a:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif hasattr(x, 'v') and hasattr(x, 'lo'):
            from bdd import sup, ATOMS
            if x is TRUE or x is FALSE:
                return
            for i in sup(x):
                go(ATOMS[i])
    go(t)
    return out


def check(k):
    S = k.server()
    ch, ctx, recv = S.diag
    got = {tm.mk('isv', recv, 1): True}
    got.update(rules.literals(S.receivers(ch)[0].cond))
    got.update(rules.variant_lits(tm.payload(recv), S.diag_adt, 'Errors'))
    memo = {}
    on = lambda x: rules.assume(x, got, memo)
    m = tm.field(tm.payload(recv), S.diag_adt, tm.VN[S.diag_adt].index('Errors'), 0)
    base = len(S.receivers(ch)[0].loops)
    pubs = [e for e in S.events if e.ctx == ctx and e.kind == 'call' and e.name.split('::')[-1] == 'publish_diagnostics' and on(e.cond) is not FALSE]
    others = [e for e in S.events if e.kind == 'call' and e.name.split('::')[-1] == 'publish_diagnostics' and e not in pubs]
    k.ob('only-here', not others, 'diagnostics are published by the diagnostics worker only', others[0].span if others else '')
    k.floor('publications', len(pubs), 1)
    D = [p for p in tm.FN if p.endswith('lsp_types::Diagnostic')][0]
    for e in pubs:
        key = e.fn()
        inner = e.loops[base:]
        el = inner[0][0] if len(inner) == 1 else None
        if not k.ob('each:' + key, el is not None and el.k == 'elem' and el.a[0] is m, 'each received document is published once', e.span, str([str(b[0]) for b in inner])):
            continue
        uri, probs = tm.field(el, '()', 0, 0), tm.field(el, '()', 0, 1)
        k.ob('uri:' + key, on(e.args[1]) is uri, "problems are published to their own document's URI", e.span, rules.flat(on(e.args[1])))
        c = rules.comp(on(e.args[2]))
        if not k.ob('list:' + key, c is not None and len(c[0]) == 1 and c[0][0].k == 'elem' and c[0][0].a[0] is probs, 'one diagnostic is made of each problem of the document, in order', e.span, rules.flat(on(e.args[2]))):
            continue
        bs, g, v = c
        p = bs[0]
        k.ob('all:' + key, g is TRUE, 'no problem is left out', e.span, tm.shown(g, 3))
        kind, ident = tm.field(p, '()', 0, 0), tm.field(p, '()', 0, 1)
        if not k.ob('diagnostic:' + key, v.k == 'agg' and v.a[0] == D, 'a diagnostic is made', e.span, rules.flat(v)):
            continue
        rng = tm.field(v, D, 0, tm.FN[D][0].index('range'))
        st, en = rules.sel(ident, ('Identifier', 'start')), rules.sel(ident, ('Identifier', 'end'))
        k.ob('range:' + key, tm.field(rng, 'rng', 0, 0) is st and tm.field(rng, 'rng', 0, 1) is en, 'a diagnostic has the range of its problem', e.span, rules.flat(rng))
        for f in ('severity', 'message'):
            x = tm.field(v, D, 0, tm.FN[D][0].index(f))
            bad = leaves_only(x, {kind})
            k.ob('%s:%s' % (f, key), not bad and tm.contains(x, lambda t: t is kind), 'the %s depends on the kind of the problem, and only on it' % f, e.span, rules.flat(x))
    # offers
    sends = [e for e in S.events if e.ctx == ctx and rules.is_send(e) and rules.chan_of(e.args[0]) is S.main and on(e.cond) is not FALSE]
    k.ob('offers', bool(sends) and any_of([on(e.cond) for e in sends]) is TRUE, 'the offers are always handed to the message worker', sends[0].span if sends else '')
    nm = tm.VN[S.jdiag_adt].index('TemplateNotFound')
    for e in sends:
        v = on(e.args[1])
        ok = v.k == 'agg' and v.a[0] == S.msg_adt and S.variants[v.a[1]] == 'CodeActions'
        if not k.ob('offers:kind', ok, 'offers are sent', e.span, rules.flat(v)):
            continue
        x = v.a[2]
        good = x.k == 'mfor' and x.a[1].k == 'emap' and len(x.a[0]) == 1 and x.a[0][0].k == 'elem' and x.a[0][0].a[0] is m and x.a[2] is TRUE
        if not k.ob('offers:each', good, 'the offers hold one list per received document', e.span, rules.flat(x)):
            continue
        el = x.a[0][0]
        k.ob('offers:key', x.a[3] is tm.field(el, '()', 0, 0), 'offers are kept for their own document', e.span, rules.flat(x.a[3]))
        c = rules.comp(x.a[4])
        probs = tm.field(el, '()', 0, 1)
        ok = c is not None and len(c[0]) == 1 and c[0][0].k == 'elem' and c[0][0].a[0] is probs
        if k.ob('offers:list', ok, 'offers are made of the problems of the document', e.span, rules.flat(x.a[4])):
            p = c[0][0]
            want = tm.is_variant(tm.field(p, '()', 0, 0), nm, len(tm.VN[S.jdiag_adt]))
            k.ob('offers:which', c[1] is want, 'an offer is kept for exactly the missing templates', e.span, tm.shown(c[1], 3))
            k.ob('offers:what', c[2] is tm.field(p, '()', 0, 1), 'an offer is the problem itself', e.span, rules.flat(c[2]))
    s = S.scene('CodeActions', None)
    a, b = s.after('code_actions'), s.before('code_actions')
    el = None
    ok = a is not None and a.k == 'mfor' and a.a[1] is b and len(a.a[0]) == 1 and a.a[0][0].k == 'elem' and a.a[0][0].a[0] is s.param() and a.a[2] is TRUE
    if ok:
        el = a.a[0][0]
        ok = a.a[3] is tm.field(el, '()', 0, 0) and a.a[4] is tm.field(el, '()', 0, 1)
    k.ob('offers:stored', ok, 'the received offers replace those kept for the same documents', S.files_adt, rules.flat(s.nice(a)) if a is not None else '')
