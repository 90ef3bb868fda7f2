"""Hash-consed value terms and their normal forms."""
import bdd
from bdd import (N, TRUE, FALSE, ATOMS, atom, ite, NOT, AND, OR, XOR, sup, simp,
                 any_of, all_of, mapatoms, cof, BIG)

_tab = {}
EMPTY = frozenset()
BINDERS = ('lv', 'nx', 'elem', 'idx')


class T(object):
    __slots__ = ('k', 'a', 'id', 'fv')

    def __repr__(self):
        return show(self, 6)


def _fv_of(x):
    if isinstance(x, T):
        return x.fv
    if isinstance(x, N):
        return nfv(x)
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = _fv_of(y)
            if f:
                r = r | f
        return r
    return EMPTY


def nfv(n):
    if n._fv is None:
        r = EMPTY
        for i in sup(n):
            f = ATOMS[i].fv
            if f:
                r = r | f
        n._fv = r
    return n._fv


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.id = len(_tab)
        f = _fv_of(a)
        if k in BINDERS:
            f = f | {t}
        elif k == 'exists':
            f = (_fv_of(a[1]) - frozenset(a[0])) | _fv_of(tuple(b.a[0] for b in a[0])) - frozenset(a[0])
        elif k == 'seq':
            f = EMPTY
            for p in a:
                if p[0] == 'for':
                    bs = frozenset(p[1])
                    f = f | ((_fv_of(p[2]) | _fv_of(p[3]) | _fv_of(tuple(b.a[0] for b in p[1]))) - bs)
                else:
                    f = f | _fv_of(p[1:])
        elif k in ('find', 'loopval', 'max', 'last', 'sub', 'catfor', 'mfor'):
            # ('find', binders, guard, value)  ('loopval', binders, ...)
            if isinstance(a[0], tuple):
                f = (f | _fv_of(tuple(b.a[0] for b in a[0]))) - frozenset(a[0])
        t.fv = f
        _tab[key] = t
    return t


# ---------------------------------------------------------------- basics
def sym(n):
    return mk('sym', n)


def I(v):
    return mk('int', int(v))


def S(s):
    return mk('str', s)


def agg(ctor, vi, *fields):
    n = len(fields)
    if n and vi is not None:
        b = fields[0]
        # eta: rebuilding a value from all of its own fields is that value
        if b.k == 'f' and b.a[1] == ctor and b.a[2] == vi and b.a[3] == 0 and ctor not in ('core::option::Option', 'core::result::Result') \
                and ctor != '[]' and not (ctor == '()' and n < 2):
            base = b.a[0]
            if NF.get((ctor, vi), n) == n and all(
                    x.k == 'f' and x.a[0] is base and x.a[1] == ctor and x.a[2] == vi and x.a[3] == i
                    for i, x in enumerate(fields)) and NV.get(ctor, 1) == 1:
                return base
    return mk('agg', ctor, vi, *fields)


NF = {}   # (ctor, vi) -> number of fields
NV = {}   # ctor -> number of variants
FN = {}   # ctor -> [[field names] per variant]
VN = {}   # ctor -> [variant names]

OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
for _c, _v in ((OPT, [[], ['0']]), (RES, [['0'], ['0']]), (POLL, [['0'], []]), (CF, [['0'], ['0']]), (ORD, [[], [], []])):
    NV[_c] = len(_v)
    FN[_c] = _v
    for _i, _f in enumerate(_v):
        NF[(_c, _i)] = len(_f)
VN[OPT] = ['None', 'Some']
VN[RES] = ['Ok', 'Err']
VN[POLL] = ['Ready', 'Pending']
VN[CF] = ['Continue', 'Break']
VN[ORD] = ['Less', 'Equal', 'Greater']
NF[('pos', 0)] = 2
NF[('rng', 0)] = 2
FN['pos'] = [['line', 'character']]
FN['rng'] = [['start', 'end']]
NV['pos'] = NV['rng'] = 1

UNIT = agg('()', 0)
NONE = agg(OPT, 0)
UNDEF = mk('undef')


def some(x):
    return agg(OPT, 1, x)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


def tup(*xs):
    return agg('()', 0, *xs)


def call(name, *args):
    return mk('call', name, *args)


# ---------------------------------------------------------------- booleans
def B(n):
    return mk('b', n)


TT = B(TRUE)
FF = B(FALSE)


def isbool(t):
    return t.k == 'b' or (t.k == 'int' and t.a[0] in (0, 1))


def nb(t):
    """the diagram of a boolean term"""
    if t.k == 'b':
        return t.a[0]
    if t.k == 'int':
        return TRUE if t.a[0] else FALSE
    if t.k == 'gv':
        return abbrev(any_of(AND(g, nb(v)) for g, v in t.a))
    if t.k == 'undef':
        return FALSE
    return atom(mk('bool', t))


def abbrev(n):
    """a large condition is kept as one atom and the literals it implies"""
    if not bdd.big(n):
        return n
    ess, d = bdd.essentials(n)
    if d:
        n = simp(n, ess)
        if not bdd.big(n):
            return AND(n, ess)
    return AND(atom(mk('abbr', n)), ess)


# ---------------------------------------------------------------- guarded values
def cases(t):
    """[(guard, leaf)]"""
    if t.k == 'gv':
        return list(t.a)
    return [(TRUE, t)]


def gv(alts):
    """alternatives (guard, value), guards mutually exclusive"""
    m = {}
    order = []
    for g, v in alts:
        if g is FALSE:
            continue
        for g2, v2 in (v.a if v.k == 'gv' else ((TRUE, v),)):
            gg = AND(g, g2)
            if gg is FALSE:
                continue
            if v2 in m:
                m[v2] = OR(m[v2], gg)
            else:
                m[v2] = gg
                order.append(v2)
    for v in order:
        m[v] = abbrev(m[v])
    if not order:
        return UNDEF
    if len(order) == 1:
        return order[0]
    real = [v for v in order if v.k != 'undef']
    if len(real) == 1:
        return real[0]
    if all(isbool(v) for v in real) and any(v.k == 'b' for v in real):
        return B(abbrev(any_of(AND(m[v], nb(v)) for v in real)))
    if any(v.k == 'b' for v in real):
        return B(abbrev(any_of(AND(m[v], nb(v)) for v in real)))
    # push the choice inside values of the same shape
    groups = {}
    go = []
    for v in real:
        if v.k == 'agg':
            key = ('agg', v.a[0], v.a[1], len(v.a))
        else:
            key = v
        if key not in groups:
            groups[key] = []
            go.append(key)
        groups[key].append(v)
    res = []
    for key in go:
        vs = groups[key]
        if len(vs) == 1:
            res.append((m[vs[0]], vs[0]))
        else:
            G = any_of(m[v] for v in vs)
            fs = []
            for i in range(2, len(vs[0].a)):
                fs.append(gv([(simp(m[v], G), v.a[i]) for v in vs]))
            res.append((G, agg(vs[0].a[0], vs[0].a[1], *fs)))
    # one of the alternatives extends the other: conditional append
    if len(res) == 2:
        (g1, a), (g2, b) = res
        r = _seqmerge(g1, a, g2, b) or _seqmerge(g2, b, g1, a)
        if r is not None:
            return r
        # eta for two variant enums
        r = _eta(g1, a, g2, b)
        if r is not None:
            return r
    if len(res) == 1:
        return res[0][1]
    res.sort(key=lambda x: x[1].id)
    return mk('gv', *res)


def _eta(g1, a, g2, b):
    for (g, x, h, y) in ((g1, a, g2, b), (g2, b, g1, a)):
        if x.k == 'agg' and len(x.a) == 3 and x.a[0] in (OPT, RES, POLL, CF):
            p = x.a[2]
            if p.k == 'f' and p.a[1] == x.a[0] and p.a[2] == x.a[1] and is_variant(p.a[0], x.a[1], 2) is g:
                base = p.a[0]
                if y is base:
                    return base
                if y.k == 'agg' and y.a[0] == x.a[0] and y.a[1] == 1 - x.a[1]:
                    if len(y.a) == 2:
                        return base
                    q = y.a[2]
                    if q.k == 'f' and q.a[0] is base and q.a[2] == y.a[1]:
                        return base
    return None


def _seqmerge(ga, a, gb, b):
    """b = a ++ rest"""
    if a.k != 'seq' or b.k != 'seq':
        if not (b.k == 'seq' and b.a and b.a[0] == ('all', a)):
            return None
        pa = (('all', a),)
    else:
        pa = a.a
    pb = b.a
    if len(pb) >= len(pa) and pb[:len(pa)] == pa:
        rest = []
        g = simp(gb, OR(ga, gb))
        for p in pb[len(pa):]:
            if p[0] == 'one':
                rest.append(('one', AND(g, p[1]), p[2]))
            elif p[0] == 'for':
                rest.append(('for', p[1], AND(g, p[2]), p[3]))
            else:
                return None
        return seq(pa + tuple(rest))
    return None


def mapgv(f, t):
    if t.k == 'gv':
        return gv([(g, f(v)) for g, v in t.a])
    return f(t)


def prune(t, c):
    """drop the alternatives that are impossible under c"""
    if t.k == 'gv':
        alts = [(g, v) for g, v in t.a if AND(g, c) is not FALSE]
        if len(alts) == len(t.a):
            return t
        if len(alts) == 1:
            return alts[0][1]
        if not alts:
            return t
        return gv(alts)
    if t.k == 'b':
        n = t.a[0]
        if n is TRUE or n is FALSE:
            return t
        if AND(n, c) is FALSE:
            return FF
        if AND(NOT(n), c) is FALSE:
            return TT
    return t


# ---------------------------------------------------------------- fields, variants
TRANSPARENT = ('core::pin::Pin', 'alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
               'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
               'core::mem::maybe_dangling::MaybeDangling')


def field(t, owner, vi, i):
    k = t.k
    if owner in TRANSPARENT:
        return t
    if k == 'agg':
        if t.a[1] == vi and 2 + i < len(t.a):
            return t.a[2 + i]
        if t.a[1] != vi:
            return UNDEF
        return mk('f', t, owner, vi, i)
    if k == 'gv':
        r = []
        for g, v in t.a:
            if v.k == 'agg' and v.a[1] != vi:
                continue
            r.append((g, field(v, owner, vi, i)))
        if not r:
            return UNDEF
        if len(r) == 1:
            return r[0][1]
        G = any_of(g for g, _ in r)
        return gv([(simp(g, G), v) for g, v in r])
    if k == 'undef':
        return t
    if k == 'upd':
        if t.a[1] == (owner, vi, i):
            return t.a[2]
        return field(t.a[0], owner, vi, i)
    return mk('f', t, owner, vi, i)


def with_field(t, owner, vi, i, new, n=None):
    if owner in TRANSPARENT:
        return new
    if n is None:
        n = NF.get((owner, vi))
    if t.k == 'agg' and t.a[1] == vi and 2 + i < len(t.a):
        l = list(t.a)
        l[2 + i] = new
        return agg(*l)
    if t.k == 'gv':
        r = []
        for g, v in t.a:
            if v.k == 'agg' and v.a[1] != vi:
                continue
            r.append((g, with_field(v, owner, vi, i, new, n)))
        if not r:
            return t
        if len(r) == 1:
            return r[0][1]
        G = any_of(g for g, _ in r)
        return gv([(simp(g, G), v) for g, v in r])
    if n is not None and i < n:
        fs = [field(t, owner, vi, j) for j in range(n)]
        fs[i] = new
        return agg(owner, vi, *fs)
    if t.k == 'upd' and t.a[1] == (owner, vi, i):
        t = t.a[0]
    return mk('upd', t, (owner, vi, i), new)


def is_variant(t, idx, n):
    """diagram: t is its variant idx of n"""
    if n == 1:
        return TRUE
    if t.k == 'agg':
        return TRUE if t.a[1] == idx else FALSE
    if t.k == 'gv':
        return abbrev(any_of(AND(g, is_variant(v, idx, n)) for g, v in t.a))
    if t.k == 'int':
        return TRUE if t.a[0] == idx else FALSE
    if t.k == 'undef':
        return FALSE
    if t.k == 'b' and n == 2:
        return t.a[0] if idx else NOT(t.a[0])
    if t.k == 'upd':
        return is_variant(t.a[0], idx, n)
    if n == 2:
        a = atom(mk('isv', t, 1))
        return a if idx == 1 else NOT(a)
    r = TRUE
    for j in range(idx):
        r = AND(r, NOT(atom(mk('isv', t, j))))
    if idx < n - 1:
        r = AND(r, atom(mk('isv', t, idx)))
    return r


def is_some(t):
    return is_variant(t, 1, 2)


def payload(t):
    return field(t, OPT, 1, 0)


# ---------------------------------------------------------------- integers
def lin_of(t):
    if t.k == 'int':
        return (t.a[0], ())
    if t.k == 'lin':
        return (t.a[0], t.a[1])
    return (0, ((t, 1),))


def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, items)


def add(a, b, sign=1):
    if a.k == 'gv' and b.k != 'gv' and len(a.a) <= 6:
        return gv([(g, add(v, b, sign)) for g, v in a.a])
    if b.k == 'gv' and a.k != 'gv' and len(b.a) <= 6:
        return gv([(g, add(a, v, sign)) for g, v in b.a])
    c1, i1 = lin_of(a)
    c2, i2 = lin_of(b)
    d = dict(i1)
    for t, k in i2:
        d[t] = d.get(t, 0) + sign * k
    return mklin(c1 + sign * c2, d)


def sub(a, b):
    return add(a, b, -1)


def gt0(l):
    """diagram of l > 0"""
    if l.k == 'gv':
        return abbrev(any_of(AND(g, gt0(v)) for g, v in l.a))
    c, items = lin_of(l)
    if not items:
        return TRUE if c > 0 else FALSE
    if len(items) == 1 and items[0][0].k == 'len' and c <= 0 and items[0][1] == 1 and c == 0:
        return NOT(empty(items[0][0].a[0]))
    if len(items) == 1 and items[0][0].k == 'len' and c == 1 and items[0][1] == -1:
        return empty(items[0][0].a[0])
    if items[0][1] < 0:
        # not(l>0)  <=>  -l >= 0  <=>  1-l > 0
        return NOT(gt0(mklin(1 - c, {t: -k for t, k in items})))
    return atom(mk('gt0', mklin(c, dict(items))))


POSLIKE = ('pos',)


def lt(a, b):
    """diagram of a < b"""
    if a is b:
        return FALSE
    if a.k == 'gv':
        return abbrev(any_of(AND(g, lt(v, b)) for g, v in a.a))
    if b.k == 'gv':
        return abbrev(any_of(AND(g, lt(a, v)) for g, v in b.a))
    if a.k == 'str' and b.k == 'str':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.k == 'agg' or b.k == 'agg':
        x = a if a.k == 'agg' else b
        ctor, vi = x.a[0], x.a[1]
        n = len(x.a) - 2
        if n and NV.get(ctor, 1) == 1 and (a.k != 'agg' or b.k != 'agg' or (a.a[0] == b.a[0] and len(a.a) == len(b.a))):
            r = FALSE
            e = TRUE
            for i in range(n):
                p, q = field(a, ctor, vi, i), field(b, ctor, vi, i)
                r = OR(r, AND(e, lt(p, q)))
                e = AND(e, eq(p, q))
            return r
        return atom(mk('bool', mk('lt', a, b)))
    return gt0(sub(b, a))


def le(a, b):
    return NOT(lt(b, a))


def empty(x):
    """diagram of x (string, sequence, map) is empty"""
    if x.k == 'gv':
        return abbrev(any_of(AND(g, empty(v)) for g, v in x.a))
    if x.k == 'str':
        return TRUE if not x.a[0] else FALSE
    if x.k == 'emap':
        return TRUE
    if x.k == 'put':
        return FALSE
    if x.k == 'seq':
        r = TRUE
        for p in x.a:
            if p[0] == 'one':
                r = AND(r, NOT(p[1]))
            elif p[0] == 'for':
                r = AND(r, NOT(exists(p[1], p[2])))
            else:
                r = AND(r, empty(p[1]))
        return r
    if x.k == 'cat':
        return all_of(empty(p) for p in x.a)
    if x.k == 'bytes' or x.k == 'text':
        pass
    return atom(mk('empty', x))


def eq(a, b):
    if a is b:
        return TRUE
    if a.k == 'gv':
        return abbrev(any_of(AND(g, eq(v, b)) for g, v in a.a))
    if b.k == 'gv':
        return abbrev(any_of(AND(g, eq(a, v)) for g, v in b.a))
    if a.k == 'b' or b.k == 'b':
        return NOT(XOR(nb(a), nb(b)))
    if a.k in ('int', 'str', 'const') and a.k == b.k:
        return TRUE if a.a == b.a else FALSE
    if a.k == 'str' and not a.a[0]:
        return empty(b)
    if b.k == 'str' and not b.a[0]:
        return empty(a)
    if a.k == 'seq' and not a.a:
        return empty(b)
    if b.k == 'seq' and not b.a:
        return empty(a)
    if a.k == 'agg' and b.k == 'agg':
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            return all_of(eq(x, y) for x, y in zip(a.a[2:], b.a[2:]))
    if a.k == 'agg' or b.k == 'agg':
        if b.k != 'agg':
            a, b = b, a
        x, o = b, a   # x aggregate, o opaque
        ctor, vi = x.a[0], x.a[1]
        n = NV.get(ctor, 1 if ctor in ('()', 'pos', 'rng') else None)
        if n is not None and o.k != 'agg':
            r = is_variant(o, vi, n)
            for i, y in enumerate(x.a[2:]):
                r = AND(r, eq(field(o, ctor, vi, i), y))
            return r
    if a.k in ('int', 'lin') or b.k in ('int', 'lin'):
        d = sub(a, b)
        c, items = lin_of(d)
        if not items:
            return TRUE if c == 0 else FALSE
        if len(items) == 1 and items[0][0].k == 'len' and c == 0:
            return empty(items[0][0].a[0])
        if items[0][1] < 0:
            d = mklin(-c, {t: -k for t, k in items})
            c, items = lin_of(d)
        pos = mklin(0, {t: k for t, k in items if k > 0})
        neg = mklin(-c, {t: -k for t, k in items if k < 0})
        a, b = pos, neg
    if a.id > b.id:
        a, b = b, a
    if b.k == 'str' or (b.k == 'int'):
        a, b = b, a
    return atom(mk('eq', a, b))


def length(v):
    if v.k == 'gv':
        return gv([(g, length(x)) for g, x in v.a])
    if v.k == 'str':
        return I(len(v.a[0].encode()))
    if v.k == 'seq' and all(p[0] == 'one' and p[1] is TRUE for p in v.a):
        return I(len(v.a))
    if v.k == 'emap':
        return I(0)
    return mk('len', v)


def satsub(a, b):
    if a.k == 'int' and b.k == 'int':
        return I(max(0, a.a[0] - b.a[0]))
    if b.k == 'int' and b.a[0] == 0:
        return a
    return mk('satsub', a, b)


# ---------------------------------------------------------------- strings
def cat(*parts):
    out = []
    for p in parts:
        if p.k == 'cat':
            l = p.a
        else:
            l = (p,)
        for x in l:
            if x.k == 'str' and not x.a[0]:
                continue
            if out and out[-1].k == 'str' and x.k == 'str':
                out[-1] = S(out[-1].a[0] + x.a[0])
            elif (out and x.k == 'call' and x.a[0] == 'chunk' and out[-1].k == 'call' and out[-1].a[0] == 'chunk'
                  and x.a[1] is out[-1].a[1] and out[-1].a[2] is I(0) and x.a[2] is I(1)):
                out[-1] = x.a[1]
            else:
                out.append(x)
    if not out:
        return S('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


# ---------------------------------------------------------------- sequences
def seq(parts):
    out = []
    for p in parts:
        if p[0] == 'one' and p[1] is FALSE:
            continue
        if p[0] == 'for' and p[2] is FALSE:
            continue
        if p[0] == 'all':
            if p[1].k == 'seq':
                out.extend(p[1].a)
                continue
            if p[1].k == 'undef':
                continue
        if p[0] == 'for' and len(p[1]) == 1 and p[2] is TRUE and p[3] is p[1][0] and p[1][0].k == 'elem':
            p = ('all', p[1][0].a[0])
            if p[1].k == 'seq':
                out.extend(p[1].a)
                continue
        out.append(p)
    if len(out) == 1 and out[0][0] == 'all':
        return out[0][1]
    return mk('seq', *out)


NIL = mk('seq')


def ones(xs):
    return mk('seq', *[('one', TRUE, x) for x in xs])


def parts_of(v):
    if v.k == 'seq':
        return v.a
    return (('all', v),)


def push(v, x):
    if v.k == 'gv':
        return gv([(g, push(w, x)) for g, w in v.a])
    return seq(parts_of(v) + (('one', TRUE, x),))


def append(v, w):
    if v.k == 'gv':
        return gv([(g, append(x, w)) for g, x in v.a])
    return seq(parts_of(v) + parts_of(w))


def literal(v):
    """elements of a sequence whose elements are all known, else None"""
    if v.k == 'seq' and all(p[0] == 'one' and p[1] is TRUE for p in v.a):
        return [p[2] for p in v.a]
    return None


def exists(binders, n):
    """diagram: some choice of the binders satisfies n"""
    if n is FALSE:
        return FALSE
    binders = tuple(binders)
    if not binders:
        return n
    for i, b in enumerate(binders):
        l = literal(b.a[0]) if b.k == 'elem' else None
        if l is not None and len(l) <= 64:
            r = FALSE
            for x in l:
                m = {b: x}
                r = OR(r, exists(binders[:i] + tuple(subst(c, m) for c in binders[i + 1:]), subst(n, m)))
            return r
    bs = frozenset(binders)
    memo = {}

    def dep(i):
        return bool(ATOMS[i].fv & bs)

    # factor out the atoms which don't depend on the bound elements
    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        free = [i for i in sup(n) if not dep(i)]
        if free:
            i = min(free)
            r = ite(atom(ATOMS[i]), go(cof(n, i, 1)), go(cof(n, i, 0)))
        elif n is FALSE:
            r = FALSE
        elif n is TRUE:
            r = TRUE
            for b in binders:
                r = AND(r, NOT(empty(b.a[0])))
            if len(binders) > 1:
                r = atom(mk('exists', binders, TRUE))
            elif binders[0].a[0].k == 'seq':
                pass
        else:
            r = atom(mk('exists', binders, abbrev(n)))
        memo[n.id] = r
        return r
    return abbrev(go(n))


# ---------------------------------------------------------------- maps
def distinct(a, b):
    if a.k == 'agg' and b.k == 'agg' and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
        return True
    if a.k in ('str', 'int') and a.k == b.k and a.a != b.a:
        return True
    if a.k == 'agg' and b.k == 'agg' and a.a[:2] == b.a[:2]:
        return any(distinct(x, y) for x, y in zip(a.a[2:], b.a[2:]))
    x, y = node_of(a), node_of(b)
    return x is not None and y is not None and x != y


def node_of(t):
    """the name of the syntax node a term stands for or identifies, when it is a node of a given tree"""
    if t.k == 'call' and t.a[0] == 'Node::id' and len(t.a) == 2:
        t = t.a[1]
    return t.a[0] if t.k == 'sym' and str(t.a[0])[:5] == 'node:' else None


def mget(m, k):
    """Option of the value under k"""
    if m.k == 'gv':
        return gv([(g, mget(v, k)) for g, v in m.a])
    if k.k == 'gv' and len(k.a) <= 4:
        return gv([(g, mget(m, v)) for g, v in k.a])
    if m.k == 'emap':
        return NONE
    if m.k == 'put':
        if m.a[1] is k:
            return some(m.a[2])
        if distinct(m.a[1], k):
            return mget(m.a[0], k)
        return mk('get', m, k)
    if m.k == 'del':
        if m.a[1] is k:
            return NONE
        if distinct(m.a[1], k):
            return mget(m.a[0], k)
        return mk('get', m, k)
    return mk('get', m, k)


def mput(m, k, v):
    if m.k == 'put' and m.a[1] is k:
        m = m.a[0]
    return mk('put', m, k, v)


def mdel(m, k):
    if m.k == 'emap':
        return m
    return mk('del', m, k)


# ---------------------------------------------------------------- substitution
def subst(x, m, memo=None):
    """replace free lv/nx/elem terms"""
    if memo is None:
        memo = {}
    dom = frozenset(m)
    return _sub(x, m, dom, memo)


def _sub(x, m, dom, memo):
    if isinstance(x, T):
        if not (x.fv & dom):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        else:
            r = rebuild(x, lambda y: _sub(y, m, dom, memo))
        memo[x] = r
        return r
    if isinstance(x, N):
        if not (nfv(x) & dom):
            return x
        key = ('n', x.id)
        r = memo.get(key)
        if r is None:
            r = mapatoms(x, lambda i: nsub(ATOMS[i], m, dom, memo))
            memo[key] = r
        return r
    if isinstance(x, tuple):
        return tuple(_sub(y, m, dom, memo) for y in x)
    return x


def nsub(t, m, dom, memo):
    """the diagram of an atom after substitution"""
    if not (t.fv & dom):
        return atom(t)
    if t in m:
        return nb(m[t])
    return reatom(t, lambda y: _sub(y, m, dom, memo))


def reatom(t, f):
    k = t.k
    if k == 'isv':
        x = f(t.a[0])
        if x.k in ('agg', 'gv', 'int', 'upd'):
            n = guess_nv(x, t.a[1])
            # atoms of n-variant enums mean exactly "is variant j"
            return any_of(AND(g, TRUE if (v.k == 'agg' and v.a[1] == t.a[1]) or (v.k == 'int' and v.a[0] == t.a[1])
                              else (FALSE if v.k in ('agg', 'int') else atom(mk('isv', v, t.a[1]))))
                          for g, v in cases(x))
        return atom(mk('isv', x, t.a[1]))
    if k == 'bool':
        return nb(f(t.a[0]))
    if k == 'eq':
        return eq(f(t.a[0]), f(t.a[1]))
    if k == 'gt0':
        return gt0(f(t.a[0]))
    if k == 'empty':
        return empty(f(t.a[0]))
    if k == 'exists':
        return exists(f(t.a[0]), f(t.a[1]))
    if k == 'abbr':
        return abbrev(f(t.a[0]))
    return nb(rebuild(t, f)) if k not in ('nx',) else atom(rebuild(t, f))


def guess_nv(x, i):
    return NV.get(x.a[0], 2) if x.k == 'agg' else 2


def rebuild(x, f):
    """x with f applied to its children, renormalised"""
    k = x.k
    a = tuple(f(y) for y in x.a) if k not in ('gv',) else x.a
    if k == 'agg':
        return agg(*a)
    if k == 'f':
        return field(*a)
    if k == 'gv':
        return gv([(f(g), f(v)) for g, v in x.a])
    if k == 'lin':
        r = I(x.a[0])
        for t, c in x.a[1]:
            v = f(t)
            if c == 1:
                r = add(r, v)
            elif c == -1:
                r = sub(r, v)
            else:
                for _ in range(abs(c)):
                    r = add(r, v, 1 if c > 0 else -1)
        return r
    if k == 'get':
        return mget(*a)
    if k == 'put':
        return mput(*a)
    if k == 'cat':
        return cat(*a)
    if k == 'seq':
        return seq(a)
    if k == 'len':
        return length(*a)
    if k == 'satsub':
        return satsub(*a)
    if k == 'b':
        return B(*a)
    return mk(k, *a)


# ---------------------------------------------------------------- queries
def subterms(x, seen=None, binders=True):
    """all terms inside x (including the atoms of conditions)"""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            yield y
            stack.extend(y.a)
        elif isinstance(y, N):
            if y.v == BIG or y in seen:
                continue
            seen.add(y)
            for i in sup(y):
                stack.append(ATOMS[i])
        elif isinstance(y, tuple):
            stack.extend(y)


def contains(x, pred):
    return any(pred(y) for y in subterms(x))


# ---------------------------------------------------------------- display
def show(x, d=6):
    if isinstance(x, N):
        return shown(x, d)
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y, d) for y in x) + ')'
    if not isinstance(x, T):
        return str(x)
    if d <= 0:
        return '…'
    k, a = x.k, x.a
    if k == 'sym':
        return a[0]
    if k == 'int':
        return str(a[0])
    if k == 'str':
        s = a[0]
        return repr(s if len(s) < 60 else s[:57] + '...')
    if k == 'agg':
        n = a[0].split('::')[-1]
        vn = VN.get(a[0])
        if vn and a[1] is not None and a[1] < len(vn) and len(vn) > 1:
            n = n + '::' + vn[a[1]] if n not in ('Option', 'Result') else vn[a[1]]
        fs = FN.get(a[0])
        fs = fs[a[1]] if fs and a[1] is not None and a[1] < len(fs) else None
        if not a[2:]:
            return n
        if fs and not fs[0].isdigit() and len(fs) == len(a) - 2:
            return n + '{' + ', '.join('%s:%s' % (f, show(y, d - 1)) for f, y in zip(fs, a[2:])) + '}'
        return n + '(' + ', '.join(show(y, d - 1) for y in a[2:]) + ')'
    if k == 'f':
        fs = FN.get(a[1])
        name = str(a[3])
        if fs and a[2] < len(fs) and a[3] < len(fs[a[2]]):
            name = fs[a[2]][a[3]]
        if a[1] in (OPT,):
            return show(a[0], d - 1) + '!'
        if a[1] == RES:
            return show(a[0], d - 1) + ('.ok!' if a[2] == 0 else '.err!')
        return show(a[0], d - 1) + '.' + name
    if k == 'gv':
        return '{' + ' | '.join('%s ? %s' % (shown(g, d - 2), show(v, d - 1)) for g, v in a) + '}'
    if k == 'b':
        return shown(a[0], d)
    if k == 'call':
        return a[0] + '(' + ', '.join(show(y, d - 1) for y in a[1:]) + ')'
    if k == 'lin':
        return '(' + ' + '.join(['%s*%s' % (c, show(t, d - 1)) if c != 1 else show(t, d - 1) for t, c in a[1]] + ([str(a[0])] if a[0] else [])) + ')'
    if k == 'isv':
        return '%s is #%s' % (show(a[0], d - 1), a[1])
    if k == 'eq':
        return '%s == %s' % (show(a[0], d - 1), show(a[1], d - 1))
    if k == 'gt0':
        return '%s > 0' % show(a[0], d - 1)
    if k == 'bool':
        return show(a[0], d)
    if k == 'seq':
        o = []
        for p in a:
            if p[0] == 'one':
                o.append(('' if p[1] is TRUE else 'if %s: ' % shown(p[1], d - 2)) + show(p[2], d - 1))
            elif p[0] == 'all':
                o.append('*' + show(p[1], d - 1))
            else:
                o.append('for %s%s: %s' % (show(p[1], d - 2), '' if p[2] is TRUE else ' if ' + shown(p[2], d - 2), show(p[3], d - 1)))
        return '[' + '; '.join(o) + ']'
    return k + '(' + ', '.join(show(y, d - 1) for y in a) + ')'


def shown(n, d=4, limit=6):
    if n is TRUE:
        return 'T'
    if n is FALSE:
        return 'F'
    if d <= 0:
        return '…'
    from bdd import paths
    ps = paths(n, limit + 1)
    o = []
    for p in ps[:limit]:
        o.append(' & '.join(('' if v else '!') + show(t, d) for t, v in p))
    if len(ps) > limit:
        o.append('…')
    return ' || '.join(o)


# ---------------------------------------------------------------- binding forms
def depth(x, memo={}):
    """greatest number of a canonical binder inside x"""
    if isinstance(x, T):
        r = memo.get(x)
        if r is None:
            if x.k == 'elem' and isinstance(x.a[1], str):
                r = max(int(x.a[1][1:]), depth(x.a[0]))
            else:
                r = depth(x.a)
            memo[x] = r
        return r
    if isinstance(x, N):
        r = memo.get(x)
        if r is None:
            r = 0
            for i in sup(x):
                r = max(r, depth(ATOMS[i]))
            memo[x] = r
        return r
    if isinstance(x, tuple):
        r = 0
        for y in x:
            d = depth(y)
            if d > r:
                r = d
        return r
    return 0


WAS = {}    # canonical name: the binders it was given to


def canon_binders(bs, *xs):
    d = depth((bs,) + xs)
    m = {}
    out = []
    for b in bs:
        if isinstance(b.a[1], str):
            d0 = None
        d += 1
        c = subst(b.a[0], m) if m else b.a[0]
        n = mk('elem', c, '#%d' % d)
        m[b] = n
        WAS.setdefault(n.a[1], set()).add(b)
        out.append(n)
    return tuple(out), m


def mkbind(kind, bs, g, v):
    """('find'|'last'|'max'…, binders, guard, value)"""
    nbs, m = canon_binders(bs, g, v)
    return mk(kind, nbs, subst(g, m), subst(v, m))


def mkfind(bs, g, v):
    return mkbind('find', bs, g, v)


def mkmfor(init, bs, g, k, v):
    nbs, m = canon_binders(bs, g, k, v)
    return mk('mfor', nbs, init, subst(g, m), subst(k, m), subst(v, m))


def normpart(p):
    if p[0] != 'for':
        return p
    nbs, m = canon_binders(p[1], p[2], p[3])
    return ('for', nbs, subst(p[2], m), subst(p[3], m))
