"""Reduced ordered decision diagrams over interned atoms (terms).

Conditions under which a program point is reached are kept as one canonical
diagram each; conditions are merged where control flow joins, so nothing is
enumerated path by path.
"""
import sys
sys.setrecursionlimit(1000000)


class N(object):
    __slots__ = ('v', 'lo', 'hi', 'id', '_sup', '_fv')

    def __init__(self, v, lo, hi, i):
        self.v = v
        self.lo = lo
        self.hi = hi
        self.id = i
        self._sup = None
        self._fv = None

    def __repr__(self):
        return 'N%d' % self.id


BIG = 1 << 60
FALSE = N(BIG, None, None, 0)
TRUE = N(BIG, None, None, 1)
_tab = {}
_cnt = [2]
ATOMS = []          # index -> term
_aidx = {}          # term -> index
_ite = {}


def mk(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    n = _tab.get(k)
    if n is None:
        n = N(v, lo, hi, _cnt[0])
        _cnt[0] += 1
        _tab[k] = n
    return n


def atom(t):
    i = _aidx.get(t)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(t)
        _aidx[t] = i
    return mk(i, FALSE, TRUE)


def ite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _ite.get(k)
    if r is not None:
        return r
    v = f.v
    if g.v < v:
        v = g.v
    if h.v < v:
        v = h.v
    f0, f1 = (f.lo, f.hi) if f.v == v else (f, f)
    g0, g1 = (g.lo, g.hi) if g.v == v else (g, g)
    h0, h1 = (h.lo, h.hi) if h.v == v else (h, h)
    r = mk(v, ite(f0, g0, h0), ite(f1, g1, h1))
    _ite[k] = r
    return r


def NOT(f):
    return ite(f, FALSE, TRUE)


def AND(f, g):
    if f is g:
        return f
    return ite(f, g, FALSE)


def OR(f, g):
    if f is g:
        return f
    return ite(f, TRUE, g)


def IMP(f, g):
    return ite(f, g, TRUE)


def XOR(f, g):
    return ite(f, NOT(g), g)


def all_of(l):
    r = TRUE
    for x in l:
        r = AND(r, x)
    return r


def any_of(l):
    r = FALSE
    for x in l:
        r = OR(r, x)
    return r


def sup(f):
    """support: frozenset of atom indices"""
    if f._sup is None:
        if f.v == BIG:
            f._sup = frozenset()
        else:
            f._sup = sup(f.lo) | sup(f.hi) | {f.v}
    return f._sup


_rc = {}


def restrict(f, c):
    """simplify f using the care set c"""
    if c is TRUE or f.v == BIG:
        return f
    if c is FALSE:
        return FALSE
    k = (f.id, c.id)
    r = _rc.get(k)
    if r is not None:
        return r
    if c.v < f.v:
        r = restrict(f, OR(c.lo, c.hi))
    elif f.v == c.v:
        if c.lo is FALSE:
            r = restrict(f.hi, c.hi)
        elif c.hi is FALSE:
            r = restrict(f.lo, c.lo)
        else:
            r = mk(f.v, restrict(f.lo, c.lo), restrict(f.hi, c.hi))
    else:
        r = mk(f.v, restrict(f.lo, c), restrict(f.hi, c))
    _rc[k] = r
    return r


def simp(f, c):
    """restrict, falling back to what is smaller; TRUE/FALSE when decided by c"""
    if f is TRUE or f is FALSE or c is TRUE:
        return f
    if AND(f, c) is FALSE:
        return FALSE
    if AND(NOT(f), c) is FALSE:
        return TRUE
    return restrict(f, c)


def cof(f, v, val, memo=None):
    if memo is None:
        memo = {}
    if f.v > v:
        return f
    r = memo.get(f.id)
    if r is None:
        if f.v == v:
            r = f.hi if val else f.lo
        else:
            r = mk(f.v, cof(f.lo, v, val, memo), cof(f.hi, v, val, memo))
        memo[f.id] = r
    return r


def forget(f, vs):
    """existentially quantify the atoms vs"""
    for v in vs:
        if v in sup(f):
            f = OR(cof(f, v, 0), cof(f, v, 1))
    return f


def mapatoms(f, fn, memo=None):
    """replace every atom index i by the diagram fn(i)"""
    if memo is None:
        memo = {}
    if f.v == BIG:
        return f
    r = memo.get(f.id)
    if r is None:
        r = ite(fn(f.v), mapatoms(f.hi, fn, memo), mapatoms(f.lo, fn, memo))
        memo[f.id] = r
    return r


def evaluate(f, val):
    """val: atom term -> bool"""
    while f.v != BIG:
        f = f.hi if val(ATOMS[f.v]) else f.lo
    return f is TRUE


def paths(f, limit=2000):
    """all cubes (list of (atom term, bool)) leading to TRUE"""
    out = []

    def go(f, acc):
        if len(out) >= limit or f is FALSE:
            return
        if f is TRUE:
            out.append(list(acc))
            return
        acc.append((ATOMS[f.v], True))
        go(f.hi, acc)
        acc.pop()
        acc.append((ATOMS[f.v], False))
        go(f.lo, acc)
        acc.pop()
    go(f, [])
    return out


LIMIT = 150
_big = {}


def big(f, limit=None):
    """more than LIMIT nodes"""
    if f.v == BIG:
        return False
    if len(sup(f)) < 9:
        return False
    r = _big.get(f.id)
    if r is None:
        seen = set()
        stack = [f]
        r = False
        while stack:
            n = stack.pop()
            if n.v == BIG or n.id in seen:
                continue
            seen.add(n.id)
            if len(seen) > LIMIT:
                r = True
                break
            stack.append(n.lo)
            stack.append(n.hi)
        _big[f.id] = r
    return r


def essentials(f):
    """the literals f implies, as a cube"""
    r = TRUE
    # a variable is essential when every path to TRUE takes one side of it
    memo = {}
    def go(n):
        # dict var -> value implied on all paths, None for FALSE
        if n is FALSE:
            return None
        if n is TRUE:
            return {}
        m = memo.get(n.id, 0)
        if m != 0:
            return m
        lo, hi = go(n.lo), go(n.hi)
        if lo is None:
            m = dict(hi)
            m[n.v] = 1
        elif hi is None:
            m = dict(lo)
            m[n.v] = 0
        else:
            m = {k: v for k, v in lo.items() if hi.get(k) == v}
        memo[n.id] = m
        return m
    d = go(f) or {}
    for v in sorted(d, reverse=True):
        r = mk(v, FALSE, r) if d[v] else mk(v, r, FALSE)
    return r, d
