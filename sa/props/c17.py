"""Node binding: the document offset is subtracted on input and added on output, once."""
import arith
import rules
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT
from props import c26

RULE = ('For every exported operation with a line offset the returned value and the state after the call are derived as '
        'functions of the arguments and of the files held.  The cursor line is then written as L + offset: the offset must '
        'vanish from every condition and every lookup of the value, and from the state; a cursor above the offset must yield '
        'nothing.  What is returned is walked down to its positions, found by their types: the line of each must be the line of '
        'one position plus the offset exactly once, its column the column of that same position, and nothing else returned '
        'may depend on the offset.  Lookups must be made at line L and the cursor\'s own column.')

# operations with an offset; whether they take a cursor
OPS = {'hover': True, 'complete': True, 'goto_definition': True, 'add_one': False, 'get_variables': False}


class Walk(object):
    """the positions of a returned value"""

    def __init__(self, N):
        self.N = N
        self.line = tm.sym('line')
        self.found = []
        self.bad = []

    def free(self, n):
        """a condition without the offset"""
        return n is TRUE or n is FALSE or not tm.contains(tm.B(n), lambda t: t is self.line)

    def clean(self, t, what):
        if tm.contains(t, lambda x: x is self.line):
            self.bad.append('%s depends on the offset: %s' % (what, rules.flat(t, 160)))

    def ty(self, p, name):
        """does a field of this type hold positions?"""
        a = self.N.prog.adts.get(p)
        if a is None:
            return None
        for v in a['variants']:
            for n, i in v['f']:
                if n == name:
                    return a['crate'].types[i]
        return None

    def positional(self, ty):
        if ty is None:
            return False
        s = ty['s']
        return any(x in s for x in ('JsPosition', 'JsRange', 'lsp_types::Position', 'lsp_types::Range', 'tree_sitter::Point'))

    def walk(self, t, what, pos=False):
        if t.k == 'gv':
            for g, v in t.a:
                if not self.free(g):
                    self.bad.append('whether %s is there depends on the offset: %s' % (what, tm.shown(g, 3)[:200]))
                self.walk(v, what, pos)
        elif t.k == 'agg':
            c, vi = t.a[0], t.a[1]
            if c == 'pos':
                self.position(t, what)
            elif c == 'rng':
                self.walk(t.a[2], what + '.start', True)
                self.walk(t.a[3], what + '.end', True)
            else:
                names = tm.FN[c][vi] if c in tm.FN else [str(i) for i in range(len(t.a) - 2)]
                for n, x in zip(names, t.a[2:]):
                    ty = self.ty(c, n)
                    self.walk(x, what if n == '0' else what + '.' + n, pos if ty is None or c == tm.OPT else self.positional(ty))
        elif t.k == 'it':
            self.walk(t.a[0], what, pos)
        elif t.k == 'seq':
            for p in t.a:
                if isinstance(p, tuple):
                    if p[0] == 'for':
                        for b in p[1]:
                            self.clean(b, 'the items of ' + what)
                        if not self.free(p[2]):
                            self.bad.append('which items %s has depends on the offset' % what)
                        self.walk(p[3], what, pos)
                    else:
                        for x in p[1:]:
                            if isinstance(x, tm.T):
                                self.walk(x, what, pos)
                            elif not self.free(x):
                                self.bad.append('which items %s has depends on the offset' % what)
                elif isinstance(p, tm.T):
                    self.walk(p, what, pos)
        elif t.k == 'undef':
            pass
        elif pos and t.k != 'none':
            self.bad.append('%s is returned without the offset: %s' % (what, rules.flat(t, 160)))
        else:
            self.clean(t, what)

    def position(self, t, what):
        l, c = t.a[2], t.a[3]
        alts = l.a if l.k == 'gv' else ((TRUE, l),)
        for g, x in alts:
            self.found.append(what)
            if not self.free(g):
                self.bad.append('%s: which line depends on the offset' % what)
            k, items = tm.lin_of(x)
            n = dict(items).get(self.line, 0)
            if n != 1:
                self.bad.append('%s: the offset is added %s times: %s' % (what, n, rules.flat(x, 160)))
                continue
            b = tm.sub(x, self.line)
            self.clean(b, what + ': the line')
            y = tm.prune(c, g) if g is not TRUE else c
            self.clean(y, what + ': the column')
            same = b.k == 'f' and b.a[1] == 'pos' and b.a[3] == 0 and y is tm.field(b.a[0], 'pos', 0, 1)
            if not same and not (b.k == 'int' and y.k == 'int'):
                self.bad.append('%s: line %s with column %s' % (what, rules.flat(b, 120), rules.flat(y, 120)))


def cursor(N, L, line):
    p = tm.sym('position')
    return tm.field(p, 'pos', 0, 0), tm.field(p, 'pos', 0, 1)


def check(k):
    N = k.node()
    D = c26.State(N)
    line, L = tm.sym('line'), tm.sym('L')
    up = tm.gt0(tm.add(L, tm.I(1)))
    uses = [m for m, ex in N.exports.items() if any(n == 'line' for n in names(N, ex[4]))]
    for op, moves in sorted(OPS.items()):
        if not k.ob('export:' + op, op in N.exports, 'the binding offers %s' % op, D.adt):
            continue
        v, c, st, ev, key = N.exports[op]
        taken = tm.contains(v, lambda t: t is line)
        k.ob(op + ':used', taken, '%s uses its offset' % op, key)
        if moves:
            pl, pc = cursor(N, L, line)
            # a cursor above the offset
            x = rules.rewrite(v, {pl: tm.sub(tm.sub(line, tm.I(1)), L)})
            x = rules.assume_by(x, nonneg(L))
            k.ob(op + ':above', nothing(x), '%s above the document yields nothing' % op, key, rules.flat(x, 300))
            v = rules.assume_by(rules.rewrite(v, {pl: tm.add(L, line)}), nonneg(L))
            # saturating below an offset already known to fit
            v = rules.rewrite(v, {tm.mk('satsub', tm.add(L, line), line): L})
            lookups(k, N, op, key, v, L, pc)
        w = Walk(N)
        w.walk(v, op)
        k.ob(op + ':shift', not w.bad, 'every position %s returns has the offset once, nothing else has it' % op, key, '; '.join(w.bad[:4]))
        k.floor('positions returned by ' + op, len(w.found), 2)
        for n in sorted(set(w.found)):
            k.ob('%s:at:%s' % (op, n), True, 'a returned position', key)
        # what is stored
        x = st.get(('arg', 0))
        if x is not None and not x.k == 'sym':
            for f, t in D.parts(x).items():
                k.ob('%s:stored:%s' % (op, f), not tm.contains(t, lambda y: y is line), '%s stores nothing that depends on the offset' % op, key, rules.flat(t, 200))
    for m in sorted(set(uses) - set(OPS)):
        k.ob('other:' + m, False, 'an operation with an offset that no rule covers', N.exports[m][4])


def names(N, key):
    b = N.prog.bodies[key]
    return [b['locals'][i + 1][1] for i in range(b['argc'])]


def nonneg(L):
    up = tm.mk('gt0', tm.add(L, tm.I(1)))

    def f(t):
        if t is up:
            return True
        return None
    return f


def nothing(x):
    if x.k == 'gv':
        return all(nothing(v) for g, v in x.a)
    return x.k == 'undef' or x is tm.NONE


def lookups(k, N, op, key, v, L, pc):
    """positions made of the cursor are line L and its own column"""
    p = tm.sym('position')
    bad, n = [], 0
    for t in tm.subterms(v):
        if t is p or t.k == 'f' and t.a[0] is p:
            continue
        if t.k == 'agg' and t.a[0] == 'pos' and {L, pc} & (atoms(t.a[2]) | atoms(t.a[3])):
            n += 1
            if t.a[2] is not L or t.a[3] is not pc:
                bad.append(rules.flat(t, 160))
        elif t.k not in ('agg', 'lin') and any(x is p for x in t.a if isinstance(x, tm.T)):
            bad.append(rules.flat(t, 160))
    k.ob(op + ':lookup', not bad, '%s looks things up at the cursor line without the offset and the cursor column' % op, key, '; '.join(bad[:3]))
    k.floor('lookups at the cursor in ' + op, n, 1)


def atoms(t):
    if t.k == 'gv':
        return set().union(*[atoms(v) for g, v in t.a])
    return {x for x, n in tm.lin_of(t)[1]}
