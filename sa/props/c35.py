"""C35: completion offers filters behind pipes, tests behind is, and variables in expressions."""
import functools

import query
import rules
import steps
import terms as tm
from props import c10, c31, c34

RULE = ('For shapes of expressions and tags and every place of the cursor in them, what the extractor of objects returns (by '
        'its transfer functions, taken from the MIR and composed along the captures the syntax query makes, up to the '
        'capture at which its loops are left) is put into the answer of the handler of completion.  Behind the operator | '
        'up to the name of the filter the answer must hold all built-in filters, on the line of a keyword is up to the '
        'name of the test all built-in tests, and nowhere else outside such names may it hold all of either.  At other '
        'places between the tokens of an expression it must be the answer for an empty expression, in a variable '
        'without fields that for a text that holds nothing but this variable, and between the tokens of a statement '
        'that for a text without names.')


def items(r):
    """the built-in items in an answer"""
    return {t.a[2].a[0] for c, v in r for t in tm.subterms(v) if t.k == 'agg' and str(t.a[0]).split('::')[-1] == 'CompletionItem' and len(t.a) > 2 and t.a[2].k == 'str'}


@functools.lru_cache(None)
def empty():
    return c31.Laid([c31.E('\n' * 30)], (0, 0), False)


def check(k):
    S = k.server()
    n = 0
    for key, es in sorted(c10.calls(S).items()):
        if c31.holder(S.prog, key) is None:
            continue
        a = c34.Asked(S, 'Completion', key)
        k.ob('asks', a.fine, 'the answer to completion depends on what is at the cursor', key, '%d uses of what is there' % len(a.calls))
        for text in sorted(c10.given(S, es).get('jinja2', set())) if a.fine else ():
            try:
                x = c34.At(S.prog, key, text)
                filters = items(a.at(0, 7, x(c31.Laid([c31.E('$b', '| ')], (0, 0), False), 0, 7)))
                tests = items(a.at(0, 11, x(c31.Laid([c31.T('if', '$b', 'is')], (0, 0), False), 0, 11)))
            except (query.Bad, steps.Missing, steps.Stopped) as e:
                k.ob('query:read', False, 'what is at the cursor can be analysed', key, str(e))
                continue
            k.ob('filters', len(filters) > 20 and filters - tests, 'the built-in filters are offered behind a pipe', key, '%d' % len(filters))
            k.ob('tests', len(tests) > 20 and tests - filters, 'the built-in tests are offered behind is', key, '%d' % len(tests))
            if not (filters - tests and tests - filters):
                continue
            for out in c34.spread(c31.SHAPES, lambda shape: list(places(x, a, filters, tests, *shape))):
                for name, what, bad, m in out:
                    n += m
                    k.ob(name, not bad, 'completion in %s offers what belongs to the place' % what, key, 'at %s' % ', '.join(bad)[:400])
    k.floor('places', n, 2000)


def places(x, a, filters, tests, name, what, tags, want):
    want = [(s + 'xx' if s[:1] == '$' else s, b, [f + 'xx' if f[:1] == '$' else f for f in c]) for s, b, c in want]
    for lay, at, wrap in c34.LAYOUTS:
        doc = c31.Laid(c31.copies(tags, 'xx'), at, wrap)
        bad, n = [], 0
        objs = c31.expected(doc, want)
        for p, must in sorted(wanted(doc, objs).items()):
            n += 1
            try:
                got = a.at(*p, x(doc, *p))
                has = {'filters': filters <= items(got), 'tests': tests <= items(got)}
                if must in has:
                    ok = has[must]
                elif any(has.values()):
                    ok = False
                elif must == 'variables':
                    ok = got == a.at(*p, x(empty(), *p))
                elif must == 'nothing':
                    ok = got == a.at(*p, x(c34.nothing(), *p))
                elif must:
                    ok = got == a.at(*p, x(c34.alone(c31.V, must[0], must[1]), *p))
                else:
                    ok = True
                if not ok:
                    bad.append('%d:%d %s expected%s' % (*p, must if isinstance(must, str) else must[0] if must else 'others', ''.join(', %s found' % h for h in has if has[h] and h != must)))
            except (steps.Stopped, query.Bad) as e:
                bad.append('%d:%d %s' % (*p, str(e)[:200]))
        yield '%s:%s' % (lay, name), what, bad, n


def wanted(doc, objs):
    """{place: what must be offered there}"""
    out = {}
    rows = {}
    for s, e in doc.places.values():
        for r, c in (s, e):
            rows.setdefault(r, []).append(c)
    leaves = [n for n in doc.root.walk() if not n.children and n is not doc.root]
    named = {at: (name, kind, fields) for name, kind, at, fields in objs}
    # filters and tests: nothing is said about places in their names
    free = [(at[0], (fields or [(0, at)])[-1][1][1]) for name, kind, at, fields in objs if kind != c31.V]
    for row in rows:
        for col in range(min(rows[row]), max(rows[row]) + 3):
            p = row, col
            out[p] = place(doc, leaves, named, p)
            if any(s < p <= e for s, e in free) and out[p] not in ('filters', 'tests'):
                del out[p]
    return {p: v for p, v in out.items() if v != 'any'}


def place(doc, leaves, named, p):
    at = lambda n: doc.places[id(n)]
    up = {id(c): t for t in doc.root.walk() for c in t.children}
    before = [n for n in leaves if at(n)[0] < p]
    after = [n for n in leaves if at(n)[0] >= p]
    last = before[-1] if before else None
    nxt = after[0] if after else None
    kind = [t.kind for t in doc.root.children if at(t)[0] < p < at(t)[1]]
    kind = kind[0] if kind else None
    if last is not None and last.kind == 'operator' and last.text.strip().endswith('|') and kind:
        s, text = at(last)[0], last.text
        bar = text.rindex('|') + 1
        lines = text[:bar].split('\n')
        end = (s[0] + len(lines) - 1, len(lines[-1]) + (s[1] if len(lines) == 1 else 0))
        if p >= end:
            return 'filters' if p <= at(nxt)[0] else 'any'
    if kind == 'statement':
        prev = [n for n in before if up[id(n)] is up[id(last)]]
        words = [n.text for n in prev[-2:]]
        i = -1 if words[-1:] == ['is'] else -2 if words == ['is', 'not'] else 0
        if i and p >= at(prev[i])[1]:
            # as long as no test follows
            if nxt is None or p >= at(nxt)[0] and nxt.kind == 'identifier':
                return 'any'
            return 'tests' if p[0] == at(prev[i])[1][0] else None
        if 'is' in words:
            # a test with the name of a keyword
            return 'any'
        return 'nothing' if not touching(leaves, at, p) else None
    if kind != 'expression':
        return 'nothing' if not kind and not any(s < p < e for s, e in map(at, leaves)) and (not before or 'is' not in [n.text for n in leaves]) else None
    own = [n for n in leaves if at(n)[0] < p <= at(n)[1] and n.kind == 'identifier']
    if own:
        o = named.get(at(own[0]))
        return (o[0], at(own[0])[0]) if o and o[1] == c31.V and not o[2] else None
    if touching(leaves, at, p) or last.kind in ('expression_begin', 'identifier', 'operator') and 'is' in [n.text for n in leaves] and p > at([n for n in leaves if n.text == 'is'][0])[0]:
        return None
    return 'variables'


def touching(leaves, at, p):
    """in a token that is not white space, or in front of a name"""
    return any(at(n)[0] < p < at(n)[1] and n.kind != 'operator' or at(n)[0] == p and n.kind == 'identifier' or at(n)[0] <= p <= at(n)[1] and n.kind in ('string', 'object') for n in leaves)
