"""Linear facts about positions and text measures, enough to decide the bounds checks of text operations.

What is known without looking at any path: how the conversions of a rope relate (a character index of the rope lies
within its length, a line found for a byte is a line of the rope and starts no later than that byte, ...)."""
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, ATOMS, atom, sup
import bdd

DEBUG = False
UNSIGNED = {'line', 'character', 'row', 'column'}


def norm(l):
    c, items = tm.lin_of(l)
    return c, dict(items)


class Facts(object):
    """known: list of (c, {term: k}) meaning c + sum k*term >= 0"""
    def __init__(self, known=()):
        self.known = list(known)
        self.seen = set()
        self.memo = {}
        self.differ = []
        self.edges = {}

    def copy(self):
        f = Facts(self.known)
        f.seen = set(self.seen)
        f.differ = list(self.differ)
        f.edges = dict(self.edges)
        return f

    def ge0(self, l):
        if l.k == 'gv':
            return
        c, d = norm(l)
        if d:
            self.known.append((c, d))
            self.memo.clear()

    def le(self, a, b):
        self.ge0(tm.sub(b, a))

    def lt(self, a, b):
        self.ge0(tm.add(tm.sub(b, a), tm.I(-1)))

    def eq(self, a, b):
        self.le(a, b)
        self.le(b, a)

    def nonneg(self, l, depth=4):
        """l >= 0 follows from the known facts"""
        c, d = norm(l)
        return self._nn(c, d, depth)

    def _nn(self, c, d, depth):
        if not d:
            return c >= 0
        if depth == 0:
            return False
        # a term with negative coefficient must be covered by a fact with it negative too; positive one by positive
        key = (c, tuple(sorted((t.id, k) for t, k in d.items())), depth)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = False
        # drop unsigned terms with positive coefficient
        neg = [t for t, k in d.items() if k < 0]
        if not neg:
            if all(unsigned(t) for t in d) and c >= 0:
                self.memo[key] = True
                return True
        t = neg[0] if neg else min(d, key=lambda x: x.id)
        s = d[t]
        for fc, fd in self.known:
            k = fd.get(t, 0)
            if k == 0 or (k > 0) != (s > 0) or abs(k) > abs(s):
                continue
            nd = dict(d)
            for u, v in fd.items():
                w = nd.get(u, 0) - v
                if w:
                    nd[u] = w
                else:
                    nd.pop(u, None)
            if len(nd) <= 6 and self._nn(c - fc, nd, depth - 1):
                self.memo[key] = True
                return True
        if not neg and unsigned(t):
            nd = dict(d)
            del nd[t]
            if self._nn(c, nd, depth):
                self.memo[key] = True
                return True
        return False

    def infeasible(self):
        for c, d in list(self.known):
            if self._nn(-c - 1, {t: -k for t, k in d.items()}, 4):
                return True
        return False

    def atom(self, t):
        """truth value of an atom, or None"""
        if t.k == 'gt0':
            l = t.a[0]
            if l.k == 'gv':
                return None
            if self.nonneg(tm.add(l, tm.I(-1))):
                return True
            if self.nonneg(tm.sub(tm.I(0), l)):
                return False
        elif t.k == 'empty' and self.edges and pure(t):
            if self.nonneg(tm.add(tm.length(t.a[0]), tm.I(-1))):
                return False
        elif t.k == 'bool' and t.a[0].k == 'call' and t.a[0].a[0] == 'inside_char' and pure(t):
            if self.boundary(*t.a[0].a[1:]):
                return False
        elif t.k == 'eq' and self.known:
            a, b = t.a[0], t.a[1]
            if a.k in ('gv', 'str') or b.k in ('gv', 'str'):
                return None
            if not (intlike(a) or intlike(b)):
                return None
            d = tm.sub(a, b)
            e = tm.sub(b, a)
            if self.nonneg(d) and self.nonneg(e):
                return True
            if self.nonneg(tm.add(d, tm.I(-1))) or self.nonneg(tm.add(e, tm.I(-1))):
                return False
        return None

    def boundary(self, v, x):
        """byte x of the text v is where a character begins, because of what the text begins or ends with"""
        c, d = norm(x)
        for (y, end), part in self.edges.items():
            n = len(part.encode())
            if end and d == {tm.length(y): 1} and c == -n and y in (v, tm.call('str::trim_end', v)):
                return True
            if not end and not d and c == n and y is v:
                return True
        l = [y for y, k in d.items()]
        return c == 0 and len(l) == 1 and d[l[0]] == 1 and l[0].k == 'len' and l[0].a[0] is tm.call('str::trim_end', v)

    def literal(self, t, v):
        """learn from an atom being v"""
        e = edge(t)
        if e and v:
            self.edges[e[:2]] = e[2]
            self.le(tm.I(len(e[2].encode())), tm.length(e[0]))
        if t.k == 'gt0' and t.a[0].k != 'gv':
            self.ge0(tm.add(t.a[0], tm.I(-1)) if v else tm.sub(tm.I(0), t.a[0]))
        elif t.k == 'eq' and v and (intlike(t.a[0]) or intlike(t.a[1])):
            self.eq(t.a[0], t.a[1])
        elif t.k == 'eq' and (intlike(t.a[0]) or intlike(t.a[1])):
            self.differ.append((t.a[0], t.a[1]))
        for a, b in self.differ:
            if pure(a) and pure(b):
                if self.nonneg(tm.sub(b, a)):
                    self.lt(a, b)
                elif self.nonneg(tm.sub(a, b)):
                    self.lt(b, a)
        if t.k == 'empty' and not v:
            self.le(tm.I(1), tm.length(t.a[0]))

    # ---- what is known about text measures
    def lemmas(self, x):
        for t in list(tm.subterms(x)):
            if t in self.seen:
                continue
            self.seen.add(t)
            if t.k == 'len' and t.a[0].k == 'call' and str(t.a[0].a[0]).split('::')[-1] in ('trim', 'trim_start', 'trim_end') and len(t.a[0].a) == 2 and pure(t):
                self.le(t, tm.length(t.a[0].a[1]))
            if t.k != 'call':
                continue
            n = t.a[0]
            if not all(pure(a) for a in t.a[1:] if isinstance(a, tm.T)):
                continue
            c = tm.call
            if n == 'char_to_byte':
                self.le(t, c('len_bytes', t.a[1]))
                self.mono(t)
            elif n == 'line_to_char':
                self.le(t, c('len_chars', t.a[1]))
                self.mono(t)
                for u in list(self.seen):
                    if u.k == 'call' and u.a[0] == 'utf16_cu_to_char':
                        self.after_line(u)
            elif n == 'line_to_byte':
                self.le(t, c('len_bytes', t.a[1]))
                x = t.a[2]
                if x.k == 'call' and x.a[0] == 'byte_to_line' and x.a[1] is t.a[1]:
                    self.le(t, x.a[2])
            elif n == 'byte_to_line':
                self.lt(t, c('len_lines', t.a[1]))
            elif n == 'utf16_cu_to_char':
                r = t.a[1]
                if r.k == 'call' and r.a[0] == 'rope_line':
                    self.le(tm.add(c('line_to_char', r.a[1], r.a[2]), t), c('len_chars', r.a[1]))
                    self.after_line(t)
                self.mono(t)
            elif n == 'sum':
                s = t.a[1]
                u = measure(t)
                if u:
                    self.le(t, c('len_utf16_cu' if u[0] == 'utf16' else 'len_chars', u[1]))
            elif n == 'rfind' or n.endswith('::rfind') or n.endswith('::find'):
                p = tm.payload(t)
                self.le(tm.I(0), p)
                self.lt(p, tm.length(t.a[1]))
            elif n == 'len_chars' and t.a[1].k == 'call' and t.a[1].a[0] == 'rope_remove':
                r = t.a[1].a[2]
                if r.k == 'agg' and len(r.a) >= 4:
                    self.eq(t, tm.sub(c('len_chars', t.a[1].a[1]), tm.sub(r.a[3], r.a[2])))
            elif n == 'len_lines':
                self.le(tm.I(1), t)

    def after_line(self, t):
        """a place in a line comes before the start of any later line"""
        r = t.a[1]
        if not (r.k == 'call' and r.a[0] == 'rope_line'):
            return
        for u in list(self.seen):
            if u.k == 'call' and u.a[0] == 'line_to_char' and u.a[1] is r.a[1] and u.a[2].k != 'gv' and r.a[2].k != 'gv':
                if self.nonneg(tm.add(tm.sub(u.a[2], r.a[2]), tm.I(-1))):
                    self.le(tm.add(tm.call('line_to_char', r.a[1], r.a[2]), t), u)

    def mono(self, t):
        for u in list(self.seen):
            if u is not t and u.k == 'call' and u.a[0] == t.a[0] and u.a[1] is t.a[1] and len(u.a) > 2:
                if self.nonneg(tm.sub(u.a[2], t.a[2])):
                    self.le(t, u)
                elif self.nonneg(tm.sub(t.a[2], u.a[2])):
                    self.le(u, t)


def edge(t):
    """(text, whether it is the end, part) if t asks whether a text begins or ends with a given part"""
    u = t.a[0] if t.k == 'bool' else t
    if u.k == 'call' and len(u.a) == 3 and u.a[2].k == 'str' and isinstance(u.a[1], tm.T) and u.a[1].k != 'str':
        f = str(u.a[0]).split('::')[-1]
        if f in ('starts_with', 'ends_with') and not str(u.a[0]).startswith('Path'):
            return u.a[1], f[0] == 'e', u.a[2].a[0]
    return None


def unsigned(t):
    if t.k == 'f':
        fn = tm.FN.get(t.a[1])
        if fn:
            return fn[t.a[2]][t.a[3]] in UNSIGNED
    if t.k == 'len':
        return True
    if t.k == 'call':
        return t.a[0] in ('char_to_byte', 'line_to_char', 'line_to_byte', 'byte_to_line', 'utf16_cu_to_char', 'len_lines', 'len_bytes', 'len_chars', 'len_utf16_cu', 'sum', 'node_start_byte', 'node_end_byte')
    return False


def intlike(t):
    return t.k in ('int', 'lin', 'len') or unsigned(t)


def measure(t):
    """(unit, slice) if t sums the width of leading characters of a rope slice"""
    if t.k == 'call' and t.a[0] == 'sum' and len(t.a) == 2:
        s = t.a[1]
        if s.k == 'seq' and len(s.a) == 1 and s.a[0][0] == 'for':
            p = s.a[0]
            bs, g, v = p[1], p[2], p[3]
            src = bs[0].a[0] if bs and bs[0].k == 'elem' else None
            el = bs[0]
            while src is not None and src.k == 'call' and src.a[0] == 'prefix':
                src = src.a[1]
            if src is not None and src.k == 'it':
                src = src.a[0]
            if src is not None and src.k == 'call' and src.a[0] in ('chars', 'RopeSlice::chars'):
                if v.k == 'call' and v.a[0].endswith('len_utf16'):
                    return 'utf16', src.a[1]
                if v is tm.I(1):
                    return 'chars', src.a[1]
    return None


def atoms_of(x, out=None, seen=None):
    """every atom inside x"""
    import rules
    if out is None:
        out, seen = [], set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, bdd.N):
            if y is TRUE or y is FALSE or ('n', y.id) in seen:
                continue
            seen.add(('n', y.id))
            for i in sup(y):
                t = ATOMS[i]
                if t not in seen:
                    seen.add(t)
                    out.append(t)
                    stack.extend(t.a)
        elif isinstance(y, tm.T):
            if y in seen and y.k != 'x':
                continue
            seen.add(y)
            stack.extend(y.a)
        elif isinstance(y, tuple):
            stack.extend(y)
    return out


def pure(t):
    """no choice inside"""
    return not tm.contains(t, lambda x: x.k in ('gv', 'b', 'abbr'))


def simplify(x, f, pred=None):
    """x with all atoms the facts decide replaced"""
    import rules

    def g(t):
        if pred is not None:
            v = pred(t)
            if v is not None:
                return v
        return f.atom(t)
    for _ in range(4):
        f.seen = set()
        f.lemmas(x)
        y = rules.assume_by(x, g)
        if y is x:
            return x
        x = y
    return x


def discharge(p, f=None, pred=None, depth=14, budget=None, path=()):
    """p cannot hold, by splitting on the plain comparisons in it"""
    if f is None:
        f = Facts()
    import rules
    if budget is None:
        budget = [400]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    p = simplify(p, f, pred)
    if p is FALSE:
        return True
    if f.infeasible():
        return True
    if p is TRUE or depth == 0:
        return False
    cand = [t for t in atoms_of(p) if (t.k in ('gt0', 'eq') or edge(t)) and pure(t) and f.atom(t) is None]
    if not cand:
        if DEBUG:
            print('stuck', [tm.show(t, 6)[:100] for t in atoms_of(p)][:6], [(tm.show(t, 9)[-160:], v) for t, v in path])
        return False
    cand.sort(key=lambda t: (tm.depth(t), t.id))
    t = cand[0]
    for v in (True, False):
        g = f.copy()
        g.literal(t, v)

        def q(u, t=t, v=v, pred=pred):
            if u is t:
                return v
            return pred(u) if pred else None
        p2 = p
        if v and t.k == 'eq' and t.a[0].k != 'int' and t.a[1].k != 'int':
            p2 = rules.rewrite(p, {t.a[0]: t.a[1]} if not tm.contains(t.a[1], lambda x: x is t.a[0]) else {t.a[1]: t.a[0]})
        if not discharge(p2, g, q, depth - 1, budget, path + ((t, v),)):
            return False
    return True
