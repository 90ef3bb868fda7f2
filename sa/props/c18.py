"""C18: positions keep their meaning through every conversion."""
import program
import rules
import steps
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT
from props import c17, c26

RULE = ('Every function that takes one position or range and yields one (found by its signature) must yield the same line and '
        'column, start and end.  Every range and every value with a start and an end that the server sends, the binding '
        'returns or an extractor records is opened into its cases; in each case both ends must be positions '
        'of one and the same item, its start first, without arithmetic on either coordinate, where a start and an end '
        'are told apart by the field they come from and, in the extractors, by the syntax-node operation that made them; parts of an extractor that are only compared with '
        'positions and never handed on are not ranges that are recorded.  '
        'Extractors are only asked about positions the editor sent.  Columns count other units in the editor than in the tree: '
        'reporting one as the other is the recorded finding column-units.')


def cases(t, c=TRUE):
    if t.k == 'gv':
        for g, v in t.a:
            d = AND(c, g)
            if d is not FALSE:
                for r in cases(v, d):
                    yield r
    else:
        yield c, t


def expand(t, c=TRUE):
    """(condition, position) of the cases of a position"""
    for g, x in cases(t, c):
        if x.k == 'agg' and x.a[0] == 'pos':
            for g2, l in cases(x.a[2], g):
                for g3, m in cases(tm.prune(x.a[3], g2), g2):
                    yield g3, tm.agg('pos', 0, l, m)
        else:
            yield g, x


def last_of(t):
    """the list whose last entry t is"""
    return t.a[1] if t.k == 'call' and t.a[0] == 'last' else None


def field_name(t):
    ctor, vi, i = t.a[1], t.a[2], t.a[3]
    if ctor == '()':
        return {0: 'start', 1: 'end'}.get(i, '?')
    return tm.FN[ctor][vi][i] if ctor in tm.FN else '?'


class Roles(object):
    def __init__(self, shift=None):
        self.shift = shift      # a term every line may have added once

    def role(self, t):
        """('start'|'end'|'at', item) of a position"""
        if t.k == 'agg' and t.a[0] == 'pos':
            l, c = t.a[2], t.a[3]
            if l.k == 'int' and c.k == 'int':
                return ('const', (l.a[0], c.a[0]))
            if self.shift is not None:
                l = tm.sub(l, self.shift)
                y = tm.agg('pos', 0, l, c)
                if y.k != 'agg' or l.k == 'int' and c.k == 'int':
                    return Roles().role(y)
            return ('?', t)
        if t.k == 'call' and t.a[0].split('::')[-1] in ('start_position', 'end_position') and 'Node' in t.a[0]:
            return ('start' if 'start' in t.a[0] else 'end', t.a[1])
        if t.k == 'last' and len(t.a) == 3 and len(t.a[0]) == 1 and t.a[1] is TRUE:
            # the last of a loop over a list
            a, x = self.role(t.a[2])
            return (a, tm.call('last', x.a[0])) if isinstance(x, tm.T) and x is t.a[0][0] else ('?', t)
        if t.k == 'f':
            n = field_name(t)
            if n in ('start', 'end'):
                return (n, t.a[0])
            if n == 'position':
                return ('at', t)
        return ('?', t)

    def pair(self, p, q):
        """do p and q run from the start to the end of one item?"""
        a, x = self.role(p)
        b, y = self.role(q)
        if a == 'const' and b == 'const':
            return x <= y
        if a == 'at':
            # a cursor: an empty range there, or the one unit after it
            return q is p or q.k == 'agg' and q.a[2] is tm.field(p, 'pos', 0, 0) and q.a[3] is tm.add(tm.field(p, 'pos', 0, 1), tm.I(1))
        if a != 'start':
            return False
        if x.k == 'elem' and tm.field(x, '()', 0, 0) is base(p, self.shift) and q is p:
            # an entry without parts is where it begins
            return True
        if b != 'end' or not isinstance(x, tm.T) or not isinstance(y, tm.T):
            return False
        return x is y or self.parts(x, y)

    def parts(self, x, y):
        """y is the last part of the item x: x.location .. last(x.fields).1, or a map entry's key .. the last of its values"""
        ls = [last_of(t) for t in ((y, y.a[0]) if y.k == 'f' else (y,)) if isinstance(t, tm.T)]
        ls = [l for l in ls if l is not None and l.k == 'f']
        if not ls:
            return False
        l = ls[0]
        whole = l.a[0]
        return x is whole or x.k == 'f' and x.a[0] is whole


def base(p, shift):
    if shift is not None and p.k == 'agg':
        return tm.agg('pos', 0, tm.sub(p.a[2], shift), p.a[3])
    return p


def positional(t):
    """does this look like a position?"""
    if t.k == 'gv':
        return any(positional(v) for g, v in t.a)
    if t.k == 'agg':
        return t.a[0] == 'pos'
    return t.k == 'call' and t.a[0].split('::')[-1] in ('start_position', 'end_position')


def pairs(x, seen):
    """(kind, start, end) of everything with a start and an end made in x"""
    ts = list(tm.subterms(x, seen))
    # an edit may insert at a place
    places = {rules.sel(t, ('TextEdit', 'range')) for t in ts if t.k == 'agg' and str(t.a[0]).split('::')[-1] == 'TextEdit'}
    for t in ts:
        if t.k != 'agg' or len(t.a) < 4:
            continue
        ctor = t.a[0]
        if ctor == 'rng' and t in places and t.a[2] is t.a[3]:
            continue
        if ctor == 'rng':
            yield 'range', t.a[2], t.a[3]
        elif ctor == '()':
            if len(t.a) >= 4 and positional(t.a[2]) and positional(t.a[3]):
                yield 'pair', t.a[2], t.a[3]
        elif ctor in tm.FN and ctor != 'pos':
            names = tm.FN[ctor][t.a[1]]
            if 'start' in names and 'end' in names and ctor.split('::')[-1] != 'Scope' and ctor.split('::')[0].startswith('jinja_lsp'):
                yield ctor, t.a[2 + names.index('start')], t.a[2 + names.index('end')]


def wrong(R, p, q, c=TRUE):
    """cases in which p..q is not one item"""
    out = []
    for g, a in expand(p, c):
        for g2, b in expand(tm.prune(q, g), g):
            if not R.pair(a, b) and rules.expand(g2) is not FALSE:
                out.append('%s to %s' % (rules.flat(a, 110), rules.flat(b, 110)))
    return out


def check(k):
    S, N = k.server(), k.node()
    conversions(k, S, N)
    reported(k, S)
    returned(k, N)
    recorded(k, S, N)
    asked(k, S, N)


# ---------------------------------------------------------------- conversion functions
POS = ('lsp_types::Position', 'tree_sitter::Point', 'jinja_lsp_nodejs::JsPosition')
RNG = ('lsp_types::Range', 'tree_sitter::Range', 'jinja_lsp_nodejs::JsRange')


def shape(an, b, ty):
    """'pos', 'rng' or None for a type, through references"""
    tys = b['crate'].types
    while ty['k'] in ('ref', 'refmut'):
        ty = tys[ty['a'][0]]
    if ty['k'] == 'adt':
        c = an.canon(ty['p'])
        if c in ('pos', 'rng'):
            return c
    if ty['k'] == 'tuple' and [shape(an, b, tys[i]) for i in ty['a']] == ['pos', 'pos']:
        return 'two'
    return None


def conversions(k, S, N):
    n = 0
    units = []
    for an, crates in ((S.a, ('jinja_lsp', 'jinja_lsp_queries')), (N, ('jinja_lsp_nodejs',))):
        for key, b in sorted(an.prog.bodies.items()):
            if b['crate'].name not in crates or b['kind'] not in ('fn', 'method') or b['exp'] or b['argc'] < 1:
                continue
            tys = b['crate'].types
            shapes = [shape(an, b, tys[b['locals'][i][0]]) for i in range(b['argc'] + 1)]
            out, ins = shapes[0], [i for i in range(1, b['argc'] + 1) if shapes[i]]
            if out not in ('pos', 'rng') or b['argc'] != 1 or shapes[1] is None or (shapes[1] == 'pos') != (out == 'pos'):
                continue
            a = tm.sym('given')
            if shapes[1] == 'two':
                a = tm.agg('rng', 0, tm.sym('given.0'), tm.sym('given.1'))
                v, c, st = an.entry(key, [tm.tup(a.a[2], a.a[3])])
                n += 1
                k.ob('convert:' + key, same(v, a, out), 'two positions become the range between them', key, rules.flat(v, 200))
                continue
            v, c, st = an.entry(key, [a])
            n += 1
            ok = same(v, a, out)
            k.ob('convert:' + key, ok, 'a converted %s is the same %s' % (out, out), key, rules.flat(v, 200))
            kinds = {base_type(tys, tys[b['locals'][i][0]]) for i in (0, 1)}
            if ok and out == 'pos' and any('Point' in x for x in kinds) and any('Point' not in x for x in kinds):
                units.append(key)
    k.floor('conversion functions', n, 1)
    k.ob('column-units', not units, 'editor columns and tree columns are different units', '', 'copied as they are by ' + ', '.join(units))


def base_type(tys, ty):
    while ty['k'] in ('ref', 'refmut'):
        ty = tys[ty['a'][0]]
    return ty['s']


def same(v, a, out):
    if v is a:
        return True
    if out == 'rng' and v.k == 'agg':
        return same(v.a[2], tm.field(a, 'rng', 0, 0), 'pos') and same(v.a[3], tm.field(a, 'rng', 0, 1), 'pos')
    return False


# ---------------------------------------------------------------- what is sent
def reported(k, S):
    R = Roles()
    n = {}
    for e in S.events:
        if not (rules.is_send(e) or e.kind == 'call' and e.name.split('::')[-1] == 'publish_diagnostics'):
            continue
        for x in e.args[1:]:
            if not isinstance(x, tm.T):
                continue
            for kind, p, q in pairs(x, set()):
                w = wrong(R, p, q)
                task = 'worker' if e.ctx[:len(S.wctx)] == S.wctx else 'diagnostics' if e.ctx == S.diag[1] else 'handler'
                key = 'sent:%s:%s' % (task, kind.split('::')[-1])
                n.setdefault(key, [0, [], e.span])
                n[key][0] += 1
                n[key][1] += w
    for key, (m, w, span) in sorted(n.items()):
        k.ob(key, not w, 'a range that is sent runs from the start to the end of one item', span, '; '.join(sorted(set(w))[:3]))
    k.floor('ranges sent', sum(m for m, w, s in n.values()), 5)


def returned(k, N):
    for op in sorted(c17.OPS):
        v, c, st, ev, key = N.exports[op]
        R = Roles(tm.sym('line'))
        w, n = [], 0
        seen = set()
        for t in opened(v):
            if t.k == 'agg' and t.a[0] != 'pos':
                for kind, p, q in own_pair(t):
                    n += 1
                    w += wrong(R, p, q)
        k.ob('returned:' + op, not w, 'a range %s returns runs from the start to the end of one item' % op, key, '; '.join(sorted(set(w))[:3]))
        k.floor('ranges returned by ' + op, n, 1)


def own_pair(t):
    names = ['start', 'end'] if t.a[0] == 'rng' else tm.FN[t.a[0]][t.a[1]] if t.a[0] in tm.FN and t.a[1] is not None else []
    if 'start' in names and 'end' in names:
        yield t.a[0], t.a[2 + names.index('start')], t.a[2 + names.index('end')]


def opened(t):
    """the values a returned value is made of, without looking into calls and conditions"""
    yield t
    subs = []
    if t.k == 'gv':
        subs = [v for g, v in t.a]
    elif t.k == 'agg':
        subs = t.a[2:]
    elif t.k == 'it':
        subs = t.a[:1]
    elif t.k == 'seq':
        for p in t.a:
            subs += [x for x in (p[3:4] if p[0] == 'for' else p[1:]) if isinstance(x, tm.T)]
    for x in subs:
        if isinstance(x, tm.T):
            for y in opened(x):
                yield y


# ---------------------------------------------------------------- what extractors record
def values(x, seen):
    """the terms x is made of, without its conditions"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tm.T):
            if y not in seen:
                seen.add(y)
                stack.extend(y.a)
        elif isinstance(y, tuple):
            stack.extend(y)
    return seen


def drain(it):
    for x in it:
        pass


def only_compared(S, N):
    """(type, field) of what is only compared, and not handed on"""
    seen, compared = set(), set()
    for es in (S.events, N.events):
        for e in es:
            for x in e.args:
                if isinstance(x, tm.T):
                    values(x, seen)
                    drain(tm.subterms(x, compared))
            drain(tm.subterms(e.cond, compared))
    for v, c, st, ev, key in N.exports.values():
        values(v, seen)
    for lv, (i, s, b) in list(S.a.lvinfo.items()) + list(N.lvinfo.items()):
        values(s, seen)
    fields = lambda ts: {(t.a[1], t.a[3]) for t in ts if isinstance(t, tm.T) and t.k == 'f'}
    return fields(compared) - fields(seen)


def kept_alone(X, compared):
    """the state whose root is a part of the result that is only compared, there and here"""
    out = {lv for lv in X.state if lv.a[2] and lv.a[2][0][0] == 'f' and lv.a[2][0][1] != '()' and tuple(lv.a[2][0][1::2]) in compared}
    while True:
        seen = set()
        for lv, (i, s) in X.state.items():
            if lv not in out:
                values(s, seen)
        again = {lv for lv in out if lv not in seen}
        if again == out:
            return out
        out = again


def without(v, compared):
    """a result without the parts that are only compared"""
    if v.k == 'gv':
        return tm.gv([(g, without(x, compared)) for g, x in v.a])
    if v.k == 'agg':
        return tm.agg(v.a[0], v.a[1], *[tm.UNDEF if (v.a[0], i) in compared else x for i, x in enumerate(v.a[2:])])
    return v


def recorded(k, S, N):
    R = Roles()
    compared = only_compared(S, N)
    for key in sorted(program.extractors(S.prog)):
        X = steps.Extractor(S.prog, key)
        name = key.split('::')[-1]
        line = [t for t in tm.subterms(X.value) if t is tm.sym('line')]
        r = Roles(tm.sym('line')) if line else R
        n, bad = 0, []
        seen = set()
        alone = kept_alone(X, compared)
        value = without(X.value, compared)
        own = {p[1] for lv in X.state for p in lv.a[2] if p[0] == 'f' and p[1] != '()'}
        for x in [y for lv, (i, s) in X.state.items() if lv not in alone for y in (i, s)] + [value]:
            for kind, p, q in pairs(x, seen):
                if kind in own:
                    # carried in parts, looked at below
                    continue
                if kind == 'pair' and x is value:
                    # put together from parts that loops leave behind
                    n += 1
                    bad += ['left: ' + z for z in ends(r, p, q, X.state)]
                    continue
                kind = kind.split('::')[-1]
                n += 1
                bad += ['%s: %s' % (kind, z) for z in wrong(r, p, q)]
        # pairs kept in parts
        for lv, (init, step) in sorted(X.state.items(), key=lambda z: str(z[0].a[1:])):
            root, path = lv.a[1], lv.a[2]
            if lv in alone or not path or path[-1][0] != 'f' or path[-1][1] != '()' or path[-1][3] != 0:
                continue
            other = [l for l in X.state if l.a[0] == lv.a[0] and l.a[1] == root and l.a[2] == path[:-1] + (path[-1][:3] + (1,),)]
            if len(other) != 1 or not (positional(step) or positional(init)) and not made(step):
                continue
            q0, q1 = X.state[other[0]]
            n += 1
            bad += ['%s: %s' % (shown(path), z) for z in kept(r, X, lv, other[0], step, q1)]
        k.ob('recorded:' + name, not bad, 'what %s records runs from the start to the end of one node' % name, key, '; '.join(sorted(set(bad))[:3]))
        if name != 'snippets_query':
            k.floor('ranges recorded by ' + name, n, 1)


def leaves(t, state, seen=()):
    """the positions that loops can leave in t"""
    for g, x in expand(t):
        if x.k in ('last', 'find') and len(x.a) == 3:
            for y in leaves(x.a[2], state, seen):
                yield y
        else:
            yield x
            if x.k == 'lv' and x in state and x not in seen:
                for z in state[x]:
                    for y in leaves(z, state, seen + (x,)):
                        yield y


def unnamed(t, memo={}):
    """the same, whatever the loops are called"""
    if t not in memo:
        r = tm.rebuild(t, lambda x: unnamed(x) if isinstance(x, tm.T) else tuple(map(unnamed, x)) if isinstance(x, tuple) and all(isinstance(y, tm.T) for y in x) else x) if t.a and t.k in ('elem', 'f', 'call') else t
        memo[t] = tm.mk('elem', r.a[0], '#0') if r.k == 'elem' else r
    return memo[t]


def ends(R, p, q, state):
    """one part is only ever the start of something, the other only ever the end of one of the same things"""
    out = []
    items = []
    for t, want, i in ((p, 'start', 0), (q, 'end', 1)):
        have = set()
        for x in leaves(t, state):
            if x.k == 'lv':
                if not x.a[2] or x.a[2][-1][3] != i:
                    out.append('%s is not where something %ss' % (rules.flat(x, 110), want))
                continue
            a, y = R.role(x)
            if a == 'const':
                continue
            have.add(unnamed(y) if isinstance(y, tm.T) else y)
            if a != want:
                out.append('%s is not where something %ss' % (rules.flat(x, 110), want))
        items.append(have)
    if not out and items[0] != items[1]:
        out.append('%s .. %s are ends of different things' % (rules.flat(p, 110), rules.flat(q, 110)))
    return out


def made(t):
    return any(positional(v) for g, v in cases(t))


def shown(path):
    return '.'.join(str(tm.FN[p[1]][p[2]][p[3]] if p[0] == 'f' and p[1] in tm.FN else p[-1]) for p in path)


def kept(R, X, lv, lv2, step, step2):
    """the two parts of a pair change together, to the two ends of one node"""
    out = []
    for g, a in expand(step):
        for g2, b in expand(tm.prune(step2, g), g):
            if a is lv and b is lv2:
                continue
            if a.k == 'lv' and b.k == 'lv' and sibling(a, b):
                continue
            if not R.pair(a, b) and rules.expand(g2) is not FALSE:
                out.append('%s to %s' % (rules.flat(a, 110), rules.flat(b, 110)))
    return out


def sibling(a, b):
    """two parts of one carried pair"""
    p, q = a.a[2], b.a[2]
    return a.a[0] == b.a[0] and a.a[1] == b.a[1] and p and q and p[:-1] == q[:-1] and p[-1][:3] == q[-1][:3] and p[-1][3] == 0 and q[-1][3] == 1


# ---------------------------------------------------------------- what extractors are asked
def asked(k, S, N):
    keys = program.extractors(S.prog)
    bad, n = [], 0
    sent = [x for e in S.events for x in e.args if isinstance(x, tm.T)]
    for xs, by in ((sent, None), ([N.exports[op][0] for op in c17.OPS], tm.sym('line'))):
        seen = set()
        for t in (y for x in xs for y in tm.subterms(x, seen)):
            if t.k == 'call' and str(t.a[0]).startswith('fn:') and str(t.a[0])[3:] in keys:
                n += 1
                for x in t.a[1:]:
                    if isinstance(x, tm.T) and not asked_about(x, by):
                        bad.append('%s is asked about %s' % (str(t.a[0]).split('::')[-1], rules.flat(x, 160)))
    k.ob('asked', not bad, 'extractors are asked about the cursor or about everything', '', '; '.join(sorted(set(bad))[:3]))
    k.floor('questions to extractors', n, 10)


def asked_about(x, by):
    """no position, the cursor (the offset taken off), or everything; no lines to add"""
    if x.k == 'int':
        return x.a[0] == 0
    if x.k != 'agg' or x.a[0] != 'pos':
        return True
    l, c = x.a[2], x.a[3]
    if l.k == 'int' and c.k == 'int':
        return True
    if by is not None:
        l = l.a[0] if l.k == 'satsub' and l.a[1] is by else tm.add(l, by)
    y = tm.agg('pos', 0, l, c)
    return y.k == 'sym' or y.k == 'f' and field_name(y) == 'position'
