"""C25: document symbols list exactly the recorded variables of that document."""
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, atom, any_of

RULE = ('The value sent to a document-symbol request is compared, as a term, with the recorded variables: for a document '
        'with recorded variables an answer is always sent, and it is the nested list made of one symbol for each element '
        "of the list recorded under the request's own URI, without a condition and in order, with the name of that element, "
        'a kind that depends on its kind only, and as range and selection range its start to its end. Without recorded '
        'variables no symbol is sent.')


def check(k):
    S = k.server()
    import props.c08
    s = S.scene('DocumentSymbol', None)
    uri = rules.sel(s.param(0), ('DocumentSymbolParams', 'text_document'), ('TextDocumentIdentifier', 'uri'))
    rs = rules.replies(S, s)
    k.floor('answers', len(rs), 1)
    vars_ = s.before('variables')
    if not k.ob('store', vars_ is not None, 'the recorded variables are kept'):
        return
    lst = tm.mget(vars_, uri)
    known = tm.nb(tm.is_some(lst)) if isinstance(tm.is_some(lst), tm.T) else tm.is_some(lst)
    sent = FALSE
    n = 0
    for c, v in rs:
        for g, x in tm.cases(v):
            g = AND(c, g)
            if g is FALSE:
                continue
            if x is tm.NONE:
                k.ob('empty', AND(g, known) is FALSE, 'a known document is answered with its symbols', '', tm.shown(g, 3)[:300])
                continue
            sent = OR(sent, g)
            y = tm.payload(x)
            name = tm.VN[y.a[0]][y.a[1]] if y.k == 'agg' and y.a[0] in tm.VN else None
            if not k.ob('nested', name == 'Nested', 'document symbols are sent', '', rules.flat(s.nice(y))):
                continue
            n += 1
            one(k, S, s, y.a[2], AND(g, known), tm.payload(lst))
    k.floor('lists of symbols', n, 1)
    k.ob('always', AND(known, NOT(sent)) is FALSE, 'every known document is answered with its symbols', '', tm.shown(AND(known, NOT(sent)), 3)[:300])


def one(k, S, s, seq, g, want):
    unknown = g is FALSE
    if unknown:
        # nothing may be listed for an unknown document
        k.ob('unknown', seq.k == 'seq' and not seq.a, 'an unknown document has no symbols', '', rules.flat(s.nice(seq)))
        return
    seq = tm.prune(seq, g)
    c = rules.comp(seq)
    ok = c is not None and len(c[0]) == 1 and c[0][0].k == 'elem' and c[0][0].a[0] is want
    if not k.ob('each', ok, "there is one symbol for each variable recorded for the request's document, in order", '', rules.flat(s.nice(seq))):
        return
    el = c[0][0]
    k.ob('all', c[1] is TRUE, 'no variable is left out', '', tm.shown(c[1], 3)[:300])
    v = c[2]
    if not k.ob('symbol', v.k == 'agg' and v.a[0].split('::')[-1] == 'DocumentSymbol', 'a symbol is made', '', rules.flat(s.nice(v))):
        return
    D = v.a[0]
    f = lambda n: tm.field(v, D, 0, tm.FN[D][0].index(n))
    I = lambda n: rules.sel(el, ('Identifier', n))
    k.ob('name', f('name') is I('name'), 'a symbol has the name of its variable', '', rules.flat(s.nice(f('name'))))
    for n in ('range', 'selection_range'):
        r = f(n)
        k.ob(n, tm.field(r, 'rng', 0, 0) is I('start') and tm.field(r, 'rng', 0, 1) is I('end'), 'the %s of a symbol is that of its variable' % n, '', rules.flat(s.nice(r)))
    import props.c08
    x = f('kind')
    bad = props.c08.leaves_only(x, {I('identifier_type')})
    k.ob('kind', not bad and tm.contains(x, lambda t: t is I('identifier_type')), "a symbol's kind depends on the kind of its variable, and only on it", '', rules.flat(s.nice(x)))
    k.ob('flat', f('children') is tm.NONE, 'a symbol has no symbols below it', '', rules.flat(s.nice(f('children'))))
