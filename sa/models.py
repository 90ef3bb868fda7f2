"""What the functions outside the workspace do, as far as values are concerned.

Known functions of std and of the libraries are given their meaning on terms;
unknown ones are opaque functions of their arguments (and forget what a mutable
reference argument refers to).
"""
import facts
import bdd
from bdd import TRUE, FALSE, AND, OR, NOT, atom, simp, any_of, all_of
import terms as tm
from terms import (T, mk, sym, I, S, agg, some, ok, err, tup, call, B, TT, FF, nb, cases, gv, field,
                   is_variant, is_some, payload, add, sub, lt, le, eq, empty, length, satsub, cat,
                   seq, NIL, ones, parts_of, push, append, literal, exists, mget, mput, mdel,
                   NONE, UNIT, UNDEF, OPT, RES, POLL, CF, ORD, mapgv)

EMAP = mk('emap')
READY = 0


class Cx(object):
    """one call"""
    __slots__ = ('an', 'F', 'st', 'args', 'gens', 'site', 'span', 'n', 'p', 'r', 't', 'cond', 'loaded')

    def __init__(self, an, F, n, p, r, gens, args, st, cond, site, span, t):
        self.an, self.F, self.n, self.p, self.r, self.gens = an, F, n, p, r, gens
        self.args, self.st, self.cond, self.site, self.span, self.t = args, st, cond, site, span, t

    def v(self, i):
        """argument i with references followed"""
        if i >= len(self.args):
            return UNDEF
        return self.an.load(self.st, self.args[i])

    def ref(self, i):
        return self.an.flatref(self.st, self.args[i])

    def set(self, i, v):
        self.an.store(self.st, self.args[i], v)

    def gt(self, i):
        if i < len(self.gens):
            return self.an.gtype(self.gens[i])
        return None, None

    def destty(self):
        if self.t is not None and 'dt' in self.t:
            return self.F.crate, self.F.crate.types[self.t['dt']]
        return None, None

    def emit(self, res=UNIT, name=None, extra=None):
        a = tuple(self.v(i) for i in range(len(self.args)))
        return self.an.emit(self.F, 'call', name or self.n, a, tuple(self.args), res, self.cond, self.span, self.gens, extra)

    def panic(self, bad, what, *args):
        """possible panic; execution goes on where it does not happen"""
        c = AND(self.cond, bad)
        if c is not FALSE:
            self.an.emit(self.F, 'panic', what, args, (), UNIT, c, self.span, self.gens)
            self.cond = AND(self.cond, NOT(bad))

    def callf(self, f, args, st=None, cond=None, tag=0):
        """call a closure argument"""
        return self.an.callv(self.F, f, list(args), self.st if st is None else st,
                             self.cond if cond is None else cond, (self.site, tag))

    def branch(self, alts):
        return self.an.branch(self.st, self.cond, alts)


TABLE = {}
PURE = set()


def model(*names):
    def deco(f):
        for n in names:
            assert n not in TABLE, n
            TABLE[n] = f
        return f
    return deco


def strip(an, c, ty):
    """type behind references and boxes"""
    while ty['k'] in ('ref', 'refmut', 'ptr') or (ty['k'] == 'adt' and ty['p'] in ('alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rc::Rc') and ty['a']):
        ty = c.types[ty['a'][0]]
    return ty


# ------------------------------------------------------------------ derived impls
def derived(an, F, b, n, args, st, cond, gens):
    s = b['key'].rsplit('::', 1)[-1]
    tr = b.get('trait') or ''
    if s in ('eq', 'ne') and 'PartialEq' in b['key']:
        x = eqt(an, an.load(st, args[0]), an.load(st, args[1]), None)
        return B(x if s == 'eq' else NOT(x))
    if s == 'clone' and 'Clone' in b['key']:
        return an.load(st, args[0])
    if s in ('lt', 'le', 'gt', 'ge') and 'PartialOrd' in b['key']:
        return cmpv(s, an.load(st, args[0]), an.load(st, args[1]), False)
    if s == 'fmt' and 'Debug' in b['key']:
        return ok(UNIT)
    return None


def poslike(an, c, ty):
    if ty is None:
        return None
    t = strip(an, c, ty)
    if t['k'] == 'adt':
        p = an.canon(t['p'])
        if p in ('pos', 'rng'):
            return p
    return None


def lexlt(a, b):
    a0, b0 = field(a, 'pos', 0, 0), field(b, 'pos', 0, 0)
    return OR(lt(a0, b0), AND(eq(a0, b0), lt(field(a, 'pos', 0, 1), field(b, 'pos', 0, 1))))


def cmpv(op, a, b, pos):
    l = lexlt if pos else lt
    if op == 'lt':
        return B(l(a, b))
    if op == 'le':
        return B(NOT(l(b, a)))
    if op == 'gt':
        return B(l(b, a))
    return B(NOT(l(a, b)))


def eqpos(a, b):
    return AND(eq(field(a, 'pos', 0, 0), field(b, 'pos', 0, 0)), eq(field(a, 'pos', 0, 1), field(b, 'pos', 0, 1)))


def eqt(an, a, b, kind):
    if kind == 'pos':
        return eqpos(a, b)
    if kind == 'rng':
        return AND(eqpos(field(a, 'rng', 0, 0), field(b, 'rng', 0, 0)), eqpos(field(a, 'rng', 0, 1), field(b, 'rng', 0, 1)))
    return eq(a, b)


# ------------------------------------------------------------------ identities
IDENT = '''Deref::deref AsRef::as_ref Borrow::borrow ToOwned::to_owned Clone::clone String::as_str str::as_str str::as_bytes
String::as_bytes String::into_bytes String::from_utf8_unchecked Path::to_string_lossy Path::to_path_buf Path::as_os_str
OsStr::to_string_lossy OsStr::as_encoded_bytes OsString::into_string_lossy
PathBuf::as_path PathBuf::into_os_string Path::new Path::display Cow::into_owned Box::new Box::pin Rc::new Arc::new Cell::new
RefCell::new hint::must_use Url::as_str Url::into_string Vec::as_slice Vec::into_boxed_slice slice::to_vec slice::into_vec
slice::as_ref Pin::new Pin::new_unchecked Pin::into_inner Pin::get_mut Pin::as_mut IntoFuture::into_future convert::identity Option::copied Option::cloned Option::as_ref Option::as_deref
Result::as_ref Result::as_deref Iterator::cloned Iterator::copied Iterator::by_ref Iterator::peekable Iterator::fuse Box::leak Box::into_raw Box::from_raw
RopeSlice::to_string String::into_boxed_str Box::into_inner mem::ManuallyDrop::new Cow::from slice::into_boxed_slice
vec::IntoIter::as_slice cmp::Reverse Rc::clone Arc::clone PathBuf::into_boxed_path ToString::to_owned
string::String::as_ref str::into_string str::to_owned str::into_boxed_bytes LinkedList::into_iter'''.split()


@model(*IDENT)
def m_ident(cx):
    v = cx.args[0]
    s = facts.short(cx.n)
    if s in ('Iterator::by_ref',) or cx.an.targets(v) is not None and s in ('Pin::new', 'Pin::new_unchecked', 'Pin::as_mut', 'Pin::get_mut', 'Pin::into_inner'):
        return v
    if s.startswith('Box::') or s in ('Rc::new', 'Arc::new', 'Cell::new', 'RefCell::new', 'hint::must_use', 'convert::identity'):
        return v
    return cx.an.load(cx.st, v)


@model('DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut', 'Vec::as_mut_slice', 'Box::as_mut', 'String::as_mut_str')
def m_identref(cx):
    return cx.ref(0)


@model('future::get_context')
def m_unitlike(cx):
    return UNIT


@model('mem::drop')
def m_drop(cx):
    return UNIT


@model('Into::into', 'From::from', 'TryInto::try_into', 'TryFrom::try_from')
def m_into(cx):
    an = cx.an
    s = facts.short(cx.n)
    c0, a = cx.gt(0)
    _, b = cx.gt(1)
    if a is None or b is None:
        return cx.v(0)
    src, dst = (a, b) if 'nto::' in s else (b, a)
    tryp = s.startswith('Try')
    # a conversion written in the workspace?
    for tr, meth in (('core::convert::From', 'from'), ('core::convert::TryFrom', 'try_from'), ('core::convert::Into', 'into')):
        if tryp != (meth == 'try_from'):
            continue
        key = '<%s as %s<%s>>::%s' % (dst['s'], tr, src['s'], meth)
        if meth == 'into':
            key = '<%s as %s<%s>>::into' % (src['s'], tr, dst['s'])
        b_ = cx.F.crate.bodies.get(key) or an.prog.bodies.get(key)
        if b_ is None:
            nk = nolt(key)
            b_ = an.nolt_bodies().get(nk)
        if b_ is not None:
            v, c = an.call_local(cx.F, b_, list(cx.args), cx.st, cx.cond, (cx.site, 'into'))
            cx.cond = c
            return v
    v = cx.v(0)
    if dst['k'] == 'adt':
        dp = dst['p']
        if dp == OPT and not (src['k'] == 'adt' and src['p'] == OPT):
            return some(v)
        if dp in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap', 'std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet'):
            return collect_map(cx, v, 'set' if 'set' in dp else 'map')
        if dp.startswith('lsp_types::') and not (src['k'] == 'adt' and src['p'] == dp):
            return call('into', S(dp), v)
        if dp == 'alloc::string::String' and src['k'] == 'prim' and src['s'] == 'char':
            return v
        if dp in ('anyhow::Error', 'napi::error::Error'):
            return call('into', S(dp), v)
    if tryp:
        if src['k'] == 'prim' and dst['k'] == 'prim':
            return call('try_into', S(dst['s']), v)
        return ok(v)
    return v


def nolt(k):
    import re
    return re.sub(r"'[a-z_]+ ?", '', k).replace('<, ', '<').replace('<>', '')


# ------------------------------------------------------------------ defaults
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet')
SEQS = ('alloc::vec::Vec', 'alloc::collections::linked_list::LinkedList', 'alloc::collections::vec_deque::VecDeque', 'alloc::collections::binary_heap::BinaryHeap')


def default_of(cx, c, ty, depth=0):
    an = cx.an
    k = ty['k']
    if k == 'prim':
        if ty['s'] == 'bool':
            return FF
        if ty['s'] == 'str':
            return S('')
        if ty['s'] == 'char':
            return S('\0')
        return I(0)
    if k == 'ref':
        return default_of(cx, c, c.types[ty['a'][0]], depth)
    if k in ('slice', 'array'):
        return NIL
    if k == 'tuple':
        return tup(*[default_of(cx, c, c.types[x], depth) for x in ty['a']])
    if k == 'adt':
        p = ty['p']
        if p == OPT:
            return NONE
        if p in MAPS or p in SETS:
            return EMAP
        if p in SEQS:
            return NIL
        if p in ('alloc::string::String', 'std::path::PathBuf', 'std::ffi::os_str::OsString', 'alloc::borrow::Cow'):
            return S('')
        if p == 'alloc::boxed::Box':
            return default_of(cx, c, c.types[ty['a'][0]], depth)
        if an.canon(p) == 'pos':
            return agg('pos', 0, I(0), I(0))
        if an.canon(p) == 'rng':
            return agg('rng', 0, agg('pos', 0, I(0), I(0)), agg('pos', 0, I(0), I(0)))
        key = '<%s as core::default::Default>::default' % ty['s']
        b = cx.F.crate.bodies.get(key) or an.prog.bodies.get(key)
        if b is None:
            b = an.nolt_bodies().get(nolt(key))
        if b is not None:
            v, c2 = an.call_local(cx.F, b, [], cx.st, cx.cond, (cx.site, 'dflt', depth))
            return v
        cp = an.canon(p)
        ad = None
        for cr in an.prog.crates:
            ad = cr.adts.get(p)
            if ad is not None and len(ad['variants']) == 1 and all(f[1] >= 0 for f in ad['variants'][0]['f']):
                break
            ad = None
        if ad is not None and p.startswith('lsp_types::') and depth < 6:
            fs = [default_of(cx, cr, cr.types[f[1]], depth + 1) for f in ad['variants'][0]['f']]
            if not fs:
                return agg(cp, 0)
            return agg(cp, 0, *fs)
        return call('default', S(ty['s']))
    return call('default', S(ty['s']))


@model('Default::default')
def m_default(cx):
    c, ty = cx.gt(0)
    if ty is None:
        return call('default', S('?'))
    return default_of(cx, c, ty)


@model('Vec::new', 'LinkedList::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity')
def m_vecnew(cx):
    return NIL


@model('String::new', 'String::with_capacity', 'PathBuf::new')
def m_strnew(cx):
    return S('')


@model('HashMap::new', 'HashMap::with_capacity', 'HashSet::new', 'HashSet::with_capacity', 'BTreeMap::new', 'BTreeSet::new')
def m_mapnew(cx):
    return EMAP


@model('Box::new_uninit', 'Box::new_uninit_in')
def m_uninit(cx):
    root = ('box', cx.an.fid('box', cx.F.fid, cx.site))
    cx.st[root] = UNDEF
    return mk('ref', root, ())


@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init')
def m_assume(cx):
    return cx.v(0)


# ------------------------------------------------------------------ comparison
@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(cx):
    an = cx.an
    c, ty = cx.gt(0)
    a, b = cx.v(0), cx.v(1)
    kind = poslike(an, c, ty) if ty is not None else None
    x = None
    if ty is not None and kind is None:
        t = strip(an, c, ty)
        if t['k'] == 'adt':
            bd = an.prog.bodies.get('<%s as core::cmp::PartialEq>::eq' % t['s'])
            if bd is not None and not bd.get('derived'):
                v, c2 = an.call_local(cx.F, bd, [a, b], cx.st, cx.cond, (cx.site, 'eq'))
                x = nb(v)
    if x is None:
        x = eqt(an, a, b, kind)
    return B(NOT(x) if cx.n.endswith('ne') else x)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_cmp(cx):
    c, ty = cx.gt(0)
    pos = poslike(cx.an, c, ty) == 'pos' if ty is not None else False
    return cmpv(cx.n[-2:], cx.v(0), cx.v(1), pos)


@model('Ord::cmp', 'PartialOrd::partial_cmp')
def m_ordcmp(cx):
    c, ty = cx.gt(0)
    l = lexlt if ty is not None and poslike(cx.an, c, ty) == 'pos' else lt
    a, b = cx.v(0), cx.v(1)
    e = eqpos(a, b) if l is lexlt else eq(a, b)
    v = gv([(l(a, b), agg(ORD, 0)), (AND(e, NOT(l(a, b))), agg(ORD, 1)), (AND(NOT(l(a, b)), NOT(e)), agg(ORD, 2))])
    return some(v) if cx.n.endswith('partial_cmp') else v


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def m_max(cx):
    c, ty = cx.gt(0)
    l = lexlt if ty is not None and poslike(cx.an, c, ty) == 'pos' else lt
    a, b = cx.v(0), cx.v(1)
    x = l(b, a)
    if cx.n.endswith('max'):
        return gv([(x, a), (NOT(x), b)])
    return gv([(x, b), (NOT(x), a)])


@model('Ord::clamp')
def m_clamp(cx):
    a, lo, hi = cx.v(0), cx.v(1), cx.v(2)
    c, ty = cx.gt(0)
    l = lexlt if ty is not None and poslike(cx.an, c, ty) == 'pos' else lt
    cx.panic(l(hi, lo), 'clamp', lo, hi)
    x, y = l(a, lo), l(hi, a)
    return gv([(x, lo), (AND(NOT(x), y), hi), (AND(NOT(x), NOT(y)), a)])


@model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne')
def m_ordis(cx):
    v = cx.v(0)
    l, e = is_variant(v, 0, 3), is_variant(v, 1, 3)
    g = AND(NOT(l), NOT(e))
    return B({'is_lt': l, 'is_le': OR(l, e), 'is_gt': g, 'is_ge': OR(g, e), 'is_eq': e, 'is_ne': NOT(e)}[cx.n.rsplit('::', 1)[1]])


# ------------------------------------------------------------------ integers
@model(*['%s::saturating_sub' % t for t in ('u8', 'u16', 'u32', 'u64', 'usize')])
def m_satsub(cx):
    return satsub(cx.v(0), cx.v(1))


@model(*['%s::%s' % (t, m) for t in ('u8', 'u16', 'u32', 'u64', 'usize') for m in ('saturating_add', 'wrapping_add')])
def m_satadd(cx):
    return add(cx.v(0), cx.v(1))


@model(*['%s::checked_sub' % t for t in ('u8', 'u16', 'u32', 'u64', 'usize')])
def m_checked_sub(cx):
    a, b = cx.v(0), cx.v(1)
    l = lt(a, b)
    return gv([(NOT(l), some(sub(a, b))), (l, NONE)])


@model(*['%s::checked_add' % t for t in ('u8', 'u16', 'u32', 'u64', 'usize')])
def m_checked_add(cx):
    return some(add(cx.v(0), cx.v(1)))


# ------------------------------------------------------------------ Option / Result
def isopt(cx, i=0):
    """is the receiver an Option (else a Result)"""
    return '::Option' in cx.p.split('>::')[0] if '>::' in cx.p else 'option' in cx.p


def O(v):
    """(diagram of Some, payload, diagram of None)"""
    s = is_some(v)
    return s, payload(v), NOT(s)


def R(v):
    e = is_variant(v, 1, 2)
    return NOT(e), field(v, RES, 0, 0), e, field(v, RES, 1, 0)


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(cx):
    s = is_variant(cx.v(0), 1, 2)
    return B(s if cx.n.endswith(('is_some', 'is_err')) else NOT(s))


@model('Option::is_some_and', 'Option::is_none_or', 'Result::is_ok_and', 'Option::map_or', 'Result::map_or', 'Result::is_err_and')
def m_mapor(cx):
    s = facts.short(cx.n)
    v = cx.v(0)
    if s.startswith('Option'):
        y, p, n = O(v)
    elif s.endswith('is_err_and'):
        _, _, y, p = R(v)
        n = NOT(y)
    else:
        y, p, n, _ = R(v)
    if s.endswith('map_or'):
        d, f = cx.args[1], cx.args[2]
    else:
        d, f = (TT if s.endswith('none_or') else FF), cx.args[1]
    return cx.branch([(y, lambda st, c: cx.callf(f, [p], st, c, 1)), (n, lambda st, c: d)])


@model('Option::map_or_else', 'Result::map_or_else')
def m_maporelse(cx):
    s = facts.short(cx.n)
    v = cx.v(0)
    if s.startswith('Option'):
        y, p, n = O(v)
        return cx.branch([(y, lambda st, c: cx.callf(cx.args[2], [p], st, c, 1)), (n, lambda st, c: cx.callf(cx.args[1], [], st, c, 2))])
    y, p, n, e = R(v)
    return cx.branch([(y, lambda st, c: cx.callf(cx.args[2], [p], st, c, 1)), (n, lambda st, c: cx.callf(cx.args[1], [e], st, c, 2))])


@model('Option::map', 'Option::and_then', 'Option::filter', 'Option::or_else', 'Option::unwrap_or_else', 'Option::inspect')
def m_optmap(cx):
    s = facts.short(cx.n)[8:]
    y, p, n = O(cx.v(0))
    f = cx.args[1]
    if s == 'map':
        return cx.branch([(y, lambda st, c: some(cx.callf(f, [p], st, c, 1))), (n, lambda st, c: NONE)])
    if s == 'and_then':
        return cx.branch([(y, lambda st, c: cx.callf(f, [p], st, c, 1)), (n, lambda st, c: NONE)])
    if s == 'filter':
        def k(st, c):
            g = nb(cx.callf(f, [p], st, c, 1))
            return gv([(g, some(p)), (NOT(g), NONE)])
        return cx.branch([(y, k), (n, lambda st, c: NONE)])
    if s == 'or_else':
        return cx.branch([(y, lambda st, c: some(p)), (n, lambda st, c: cx.callf(f, [], st, c, 1))])
    if s == 'inspect':
        def k2(st, c):
            cx.callf(f, [p], st, c, 1)
            return some(p)
        return cx.branch([(y, k2), (n, lambda st, c: NONE)])
    return cx.branch([(y, lambda st, c: p), (n, lambda st, c: cx.callf(f, [], st, c, 1))])


@model('Result::map', 'Result::map_err', 'Result::and_then', 'Result::or_else', 'Result::unwrap_or_else')
def m_resmap(cx):
    s = facts.short(cx.n)[8:]
    y, p, n, e = R(cx.v(0))
    f = cx.args[1]
    if s == 'map':
        return cx.branch([(y, lambda st, c: ok(cx.callf(f, [p], st, c, 1))), (n, lambda st, c: err(e))])
    if s == 'map_err':
        return cx.branch([(y, lambda st, c: ok(p)), (n, lambda st, c: err(cx.callf(f, [e], st, c, 1)))])
    if s == 'and_then':
        return cx.branch([(y, lambda st, c: cx.callf(f, [p], st, c, 1)), (n, lambda st, c: err(e))])
    if s == 'or_else':
        return cx.branch([(y, lambda st, c: ok(p)), (n, lambda st, c: cx.callf(f, [e], st, c, 1))])
    return cx.branch([(y, lambda st, c: p), (n, lambda st, c: cx.callf(f, [e], st, c, 1))])


@model('Option::unwrap_or', 'Result::unwrap_or')
def m_unwrap_or(cx):
    v = cx.v(0)
    if 'Option' in facts.short(cx.n):
        y, p, n = O(v)
    else:
        y, p, n, _ = R(v)
    return gv([(y, p), (n, cx.args[1])])


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or_default(cx):
    v = cx.v(0)
    if 'Option' in facts.short(cx.n):
        y, p, n = O(v)
    else:
        y, p, n, _ = R(v)
    c, ty = cx.gt(0)
    d = default_of(cx, c, ty) if ty is not None else call('default', S('?'))
    return gv([(y, p), (n, d)])


@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def m_unwrap(cx):
    v = cx.v(0)
    y, p, n = O(v)
    cx.panic(n, 'unwrap', v)
    return p


@model('Result::unwrap', 'Result::expect')
def m_runwrap(cx):
    v = cx.v(0)
    y, p, n, _ = R(v)
    cx.panic(n, 'unwrap', v)
    return p


@model('Result::unwrap_err', 'Result::expect_err')
def m_runwrap_err(cx):
    v = cx.v(0)
    y, p, n, e = R(v)
    cx.panic(y, 'unwrap_err', v)
    return e


@model('Result::ok')
def m_ok(cx):
    y, p, n, _ = R(cx.v(0))
    return gv([(y, some(p)), (n, NONE)])


@model('Result::err')
def m_err(cx):
    y, p, n, e = R(cx.v(0))
    return gv([(n, some(e)), (y, NONE)])


@model('Option::ok_or')
def m_ok_or(cx):
    y, p, n = O(cx.v(0))
    return gv([(y, ok(p)), (n, err(cx.args[1]))])


@model('Option::ok_or_else')
def m_ok_or_else(cx):
    y, p, n = O(cx.v(0))
    return cx.branch([(y, lambda st, c: ok(p)), (n, lambda st, c: err(cx.callf(cx.args[1], [], st, c, 1)))])


@model('Option::or', 'Option::xor')
def m_or(cx):
    y, p, n = O(cx.v(0))
    return gv([(y, some(p)), (n, cx.v(1))])


@model('Option::and')
def m_and(cx):
    y, p, n = O(cx.v(0))
    return gv([(y, cx.v(1)), (n, NONE)])


@model('Option::zip')
def m_zip(cx):
    y, p, n = O(cx.v(0))
    y2, p2, n2 = O(cx.v(1))
    return gv([(AND(y, y2), some(tup(p, p2))), (NOT(AND(y, y2)), NONE)])


@model('Option::flatten')
def m_flatten(cx):
    y, p, n = O(cx.v(0))
    return gv([(y, p), (n, NONE)])


@model('Option::take', 'mem::take')
def m_take(cx):
    v = cx.v(0)
    if cx.n.endswith('mem::take'):
        c, ty = cx.gt(0)
        cx.set(0, default_of(cx, c, ty))
    else:
        cx.set(0, NONE)
    return v


@model('Option::replace', 'mem::replace')
def m_replace(cx):
    v = cx.v(0)
    new = cx.args[1]
    cx.set(0, some(new) if 'Option' in cx.n else new)
    return v


@model('mem::swap')
def m_swap(cx):
    a, b = cx.v(0), cx.v(1)
    cx.set(0, b)
    cx.set(1, a)
    return UNIT


@model('Option::insert')
def m_optinsert(cx):
    cx.set(0, some(cx.args[1]))
    return cx.an.subref(cx.ref(0), ('f', OPT, 1, 0))


@model('Option::get_or_insert', 'Option::get_or_insert_with', 'Option::get_or_insert_default')
def m_optgetor(cx):
    y, p, n = O(cx.v(0))
    s = cx.n
    if s.endswith('_with'):
        d = cx.branch([(y, lambda st, c: p), (n, lambda st, c: cx.callf(cx.args[1], [], st, c, 1))])
    elif s.endswith('_default'):
        c, ty = cx.gt(0)
        d = gv([(y, p), (n, default_of(cx, c, ty))])
    else:
        d = gv([(y, p), (n, cx.args[1])])
    cx.set(0, some(d))
    return cx.an.subref(cx.ref(0), ('f', OPT, 1, 0))


@model('Option::as_mut', 'Option::as_deref_mut', 'Option::as_pin_mut')
def m_as_mut(cx):
    y, p, n = O(cx.v(0))
    return gv([(y, some(cx.an.subref(cx.ref(0), ('f', OPT, 1, 0)))), (n, NONE)])


@model('Result::as_mut')
def m_ras_mut(cx):
    y, p, n, e = R(cx.v(0))
    return gv([(y, ok(cx.an.subref(cx.ref(0), ('f', RES, 0, 0)))), (n, err(cx.an.subref(cx.ref(0), ('f', RES, 1, 0))))])


@model('Option::transpose')
def m_transpose(cx):
    y, p, n = O(cx.v(0))
    ry, rp, rn, e = R(p)
    return gv([(n, ok(NONE)), (AND(y, ry), ok(some(rp))), (AND(y, rn), err(e))])


@model('Option::iter', 'Option::into_iter')
def m_optiter(cx):
    y, p, n = O(cx.v(0))
    return mk('it', seq((('one', y, p),)), 0)


@model('once::once', 'iter::once', 'once_with::once_with', 'iter::once_with')
def m_once(cx):
    x = cx.args[0]
    if cx.n.endswith('once_with'):
        x = cx.callf(x, [], cx.st, cx.cond, 1)
    return mk('it', ones([x]), 0)


@model('empty::empty', 'iter::empty')
def m_iter_empty(cx):
    return mk('it', NIL, 0)


@model('Try::branch')
def m_try(cx):
    v = cx.args[0]
    v = cx.an.load(cx.st, v) if v.k == 'ref' else v
    c, ty = cx.gt(0)
    if ty is not None and ty['p'] == OPT:
        y, p, n = O(v)
        return gv([(y, agg(CF, 0, p)), (n, agg(CF, 1, NONE))])
    if ty is not None and ty['p'] == POLL:
        return agg(CF, 0, v)
    y, p, n, e = R(v)
    return gv([(y, agg(CF, 0, p)), (n, agg(CF, 1, err(e)))])


@model('FromResidual::from_residual')
def m_resid(cx):
    c, ty = cx.gt(0)
    if ty is not None and ty['p'] == OPT:
        return NONE
    v = cx.v(0)
    return err(field(v, RES, 1, 0))


@model('Try::from_output')
def m_from_output(cx):
    c, ty = cx.gt(0)
    return some(cx.args[0]) if ty is not None and ty['p'] == OPT else ok(cx.args[0])


@model('bool::then')
def m_then(cx):
    b = nb(cx.v(0))
    return cx.branch([(b, lambda st, c: some(cx.callf(cx.args[1], [], st, c, 1))), (NOT(b), lambda st, c: NONE)])


@model('bool::then_some')
def m_then_some(cx):
    b = nb(cx.v(0))
    return gv([(b, some(cx.args[1])), (NOT(b), NONE)])


@model('Not::not')
def m_not(cx):
    return B(NOT(nb(cx.v(0))))


# ------------------------------------------------------------------ closures as values
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_call(cx):
    a = cx.v(1)
    n = len(a.a) - 2 if a.k == 'agg' else 1
    args = [a.a[2 + i] for i in range(n)] if a.k == 'agg' else [field(a, '()', 0, 0)]
    return cx.callf(cx.args[0], args)


# ------------------------------------------------------------------ maps
def entries(m):
    """the sequence of (key, value) pairs"""
    if m.k == 'emap':
        return NIL
    if m.k == 'put':
        ks = []
        b = m
        while b.k == 'put':
            ks.append((b.a[1], b.a[2]))
            b = b.a[0]
        if b.k == 'emap':
            return ones([tup(k, v) for k, v in reversed(ks)])
    if m.k == 'mfor' and m.a[1].k == 'emap':
        return seq((('for', m.a[0], m.a[2], tup(m.a[3], m.a[4])),))
    if m.k == 'gv':
        return call('entries', m)
    return m


def over(cx, src, f, tag):
    """[f(x) for x in src] for a pure f on terms"""
    out = []
    for i, p in enumerate(parts_of(src)):
        if p[0] == 'one':
            out.append(('one', p[1], f(p[2])))
        elif p[0] == 'for':
            out.append(tm.normpart(('for', p[1], p[2], f(p[3]))))
        else:
            e = mk('elem', p[1], cx.an.fid('over', cx.F.fid, cx.site, tag, i))
            out.append(tm.normpart(('for', (e,), TRUE, f(e))))
    return seq(tuple(out))


@model('HashMap::get', 'BTreeMap::get')
def m_mapget(cx):
    return mget(cx.v(0), cx.v(1))


@model('HashMap::get_key_value')
def m_mapgetkv(cx):
    o = mget(cx.v(0), cx.v(1))
    return gv([(is_some(o), some(tup(cx.v(1), payload(o)))), (NOT(is_some(o)), NONE)])


@model('HashMap::get_mut', 'BTreeMap::get_mut')
def m_mapgetmut(cx):
    o = mget(cx.v(0), cx.v(1))
    s = is_some(o)
    return gv([(s, some(cx.an.subref(cx.ref(0), ('k', cx.v(1))))), (NOT(s), NONE)])


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def m_mapcontains(cx):
    return B(is_some(mget(cx.v(0), cx.v(1))))


@model('HashMap::insert', 'BTreeMap::insert')
def m_mapinsert(cx):
    m, k = cx.v(0), cx.v(1)
    old = mget(m, k)
    cx.emit(old)
    cx.set(0, mput(m, k, cx.args[2]))
    return old


@model('HashSet::insert', 'BTreeSet::insert')
def m_setinsert(cx):
    m, k = cx.v(0), cx.v(1)
    old = mget(m, k)
    cx.set(0, mput(m, k, UNIT))
    return B(NOT(is_some(old)))


@model('HashMap::remove', 'BTreeMap::remove', 'HashSet::remove', 'HashMap::remove_entry', 'HashSet::take')
def m_mapremove(cx):
    m, k = cx.v(0), cx.v(1)
    old = mget(m, k)
    if 'Map' in cx.n:
        cx.emit(old)
    cx.set(0, mdel(m, k))
    if cx.n.endswith('HashSet::remove'):
        return B(is_some(old))
    if cx.n.endswith('remove_entry'):
        return gv([(is_some(old), some(tup(k, payload(old)))), (NOT(is_some(old)), NONE)])
    return old


@model('HashMap::clear', 'HashSet::clear', 'BTreeMap::clear')
def m_mapclear(cx):
    cx.emit()
    cx.set(0, EMAP)
    return UNIT


@model('HashMap::entry', 'BTreeMap::entry')
def m_entry(cx):
    return call('entry', cx.ref(0), cx.v(1))


def entry_put(cx, mkdef):
    e = cx.an.load(cx.st, cx.args[0])
    outs = []
    for g, x in cases(e):
        if x.k == 'call' and x.a[0] == 'entry':
            outs.append((g, x.a[1], x.a[2]))
    if not outs:
        return call('entry_ref', e)
    res = []
    for g, ref, k in outs:
        m = cx.an.load(cx.st, ref)
        o = mget(m, k)
        s = is_some(o)
        d = cx.branch([(s, lambda st, c: payload(o)), (NOT(s), lambda st, c: mkdef(st, c, k))])
        nm = mput(m, k, d)
        cx.an.emit(cx.F, 'call', 'std::collections::hash::map::HashMap::insert', (m, k, d), (ref,), o, AND(cx.cond, g), cx.span, cx.gens)
        cx.an.store(cx.st, ref, nm if g is TRUE else gv([(g, nm), (NOT(g), m)]))
        res.append((g, cx.an.subref(ref, ('k', k))))
    return gv(res)


@model('Entry::or_default')
def m_or_default(cx):
    c, ty = cx.gt(1)
    return entry_put(cx, lambda st, cc, k: default_of(cx, c, ty))


@model('Entry::or_insert')
def m_or_insert(cx):
    return entry_put(cx, lambda st, cc, k: cx.args[1])


@model('Entry::or_insert_with')
def m_or_insert_with(cx):
    return entry_put(cx, lambda st, cc, k: cx.callf(cx.args[1], [], st, cc, 1))


@model('Entry::or_insert_with_key')
def m_or_insert_with_key(cx):
    return entry_put(cx, lambda st, cc, k: cx.callf(cx.args[1], [k], st, cc, 1))


@model('Entry::and_modify')
def m_and_modify(cx):
    e = cx.an.load(cx.st, cx.args[0])
    if e.k == 'call' and e.a[0] == 'entry':
        ref, k = e.a[1], e.a[2]
        o = mget(cx.an.load(cx.st, ref), k)
        s = is_some(o)
        cx.branch([(s, lambda st, c: cx.callf(cx.args[1], [cx.an.subref(ref, ('k', k))], st, c, 1)), (NOT(s), lambda st, c: UNIT)])
    return e


@model('Entry::insert_entry', 'VacantEntry::insert', 'OccupiedEntry::insert')
def m_entryinsert(cx):
    e = cx.an.load(cx.st, cx.args[0])
    if e.k == 'call' and e.a[0] == 'entry':
        ref, k = e.a[1], e.a[2]
        m = cx.an.load(cx.st, ref)
        cx.an.store(cx.st, ref, mput(m, k, cx.args[1]))
        return cx.an.subref(ref, ('k', k))
    return call('entry_ref', e)


@model('HashMap::keys', 'HashMap::into_keys', 'BTreeMap::keys', 'BTreeMap::into_keys')
def m_keys(cx):
    return mk('it', over(cx, entries(cx.v(0)), lambda e: field(e, '()', 0, 0), 'k'), 0)


@model('HashMap::values', 'HashMap::into_values', 'BTreeMap::values')
def m_values(cx):
    return mk('it', over(cx, entries(cx.v(0)), lambda e: field(e, '()', 0, 1), 'v'), 0)


def mutentries(cx, i=0, pair=True):
    ref = cx.ref(i)
    m = cx.an.load(cx.st, ref)
    src = entries(m)

    def f(e):
        k = field(e, '()', 0, 0)
        r = cx.an.subref(ref, ('k', k))
        return tup(k, r) if pair else r
    return mk('it', over(cx, src, f, 'm'), 0)


@model('HashMap::values_mut', 'BTreeMap::values_mut')
def m_values_mut(cx):
    return mutentries(cx, 0, False)


@model('HashMap::iter', 'HashMap::into_iter', 'BTreeMap::iter', 'HashMap::drain')
def m_mapiter(cx):
    v = cx.v(0)
    if cx.n.endswith('drain'):
        cx.set(0, EMAP)
    return mk('it', entries(v), 0)


@model('HashSet::iter', 'BTreeSet::iter', 'HashSet::drain')
def m_setiter(cx):
    v = cx.v(0)
    if cx.n.endswith('drain'):
        cx.set(0, EMAP)
    return mk('it', over(cx, entries(v), lambda e: field(e, '()', 0, 0), 'k'), 0)


@model('HashMap::iter_mut', 'BTreeMap::iter_mut')
def m_mapitermut(cx):
    return mutentries(cx)


@model('HashMap::retain', 'HashSet::retain')
def m_mapretain(cx):
    an = cx.an
    m = cx.v(0)
    ref = cx.ref(0)
    cx.emit()
    acc = ('acc', an.fid('acc', cx.F.fid, cx.site))
    isset = 'Set' in cx.n

    def body(x, s, c):
        k, v = field(x, '()', 0, 0), field(x, '()', 0, 1)
        if isset:
            g = nb(an.callv(cx.F, cx.args[1], [k], s, c, (cx.site, 1)))
        else:
            root = ('tmp', an.fid('ret', cx.F.fid, cx.site))
            s[root] = v
            g = nb(an.callv(cx.F, cx.args[1], [k, mk('ref', root, ())], s, c, (cx.site, 1)))
            v = s.pop(root)
        a = s[acc]
        s[acc] = gv([(g, mput(a, k, v)), (NOT(g), a)])
        return [('next', c, s)]
    brk, (c, s), itk = an.iterate(cx.F, entries(m), cx.st, cx.cond, (cx.site, 'ret'), body, {acc: EMAP})
    cx.st.clear()
    cx.st.update(s)
    r = cx.st.pop(acc)
    cx.st.pop(itk, None)
    cx.set(0, r)
    return UNIT


@model('HashMap::len', 'HashSet::len', 'BTreeMap::len')
def m_maplen(cx):
    return length(cx.v(0))


# ------------------------------------------------------------------ sequences and strings: size
@model('Vec::is_empty', 'String::is_empty', 'str::is_empty', 'slice::is_empty', 'HashMap::is_empty', 'HashSet::is_empty',
       'LinkedList::is_empty', 'VecDeque::is_empty', 'OsStr::is_empty', 'BTreeMap::is_empty')
def m_is_empty(cx):
    return B(empty(cx.v(0)))


@model('Vec::len', 'String::len', 'str::len', 'slice::len', 'LinkedList::len', 'VecDeque::len', 'ExactSizeIterator::len')
def m_len(cx):
    v = cx.v(0)
    if v.k == 'it':
        v = it_src(v)
    return length(v)


# ------------------------------------------------------------------ sequences
@model('Vec::push', 'VecDeque::push_back', 'LinkedList::push_back')
def m_push(cx):
    cx.set(0, push(cx.v(0), cx.args[1]))
    return UNIT


@model('LinkedList::push_front', 'VecDeque::push_front')
def m_push_front(cx):
    v = cx.v(0)
    cx.set(0, tm.mapgv(lambda w: seq((('one', TRUE, cx.args[1]),) + parts_of(w)), v))
    return UNIT


@model('Vec::insert')
def m_vinsert(cx):
    v, i = cx.v(0), cx.v(1)
    cx.panic(lt(length(v), i), 'Vec::insert', v, i)
    if i.k == 'int' and i.a[0] == 0:
        cx.set(0, tm.mapgv(lambda w: seq((('one', TRUE, cx.args[2]),) + parts_of(w)), v))
    else:
        cx.set(0, call('insert_at', v, i, cx.args[2]))
    return UNIT


def pop_of(v, front):
    """(option, rest)"""
    if v.k == 'gv':
        xs = [(g,) + pop_of(w, front) for g, w in v.a]
        return gv([(g, o) for g, o, _ in xs]), gv([(g, r) for g, _, r in xs])
    l = v.a if v.k == 'seq' else None
    if l is not None:
        if not l:
            return NONE, v
        p = l[0] if front else l[-1]
        if p[0] == 'one' and p[1] is TRUE:
            return some(p[2]), seq(l[1:] if front else l[:-1])
    e = empty(v)
    x = call('first' if front else 'last', v)
    return gv([(NOT(e), some(x)), (e, NONE)]), call('tail' if front else 'init', v)


@model('Vec::pop', 'LinkedList::pop_back', 'VecDeque::pop_back', 'LinkedList::pop_front', 'VecDeque::pop_front')
def m_pop(cx):
    o, r = pop_of(cx.v(0), cx.n.endswith('front'))
    cx.set(0, r)
    return o


@model('Vec::append', 'LinkedList::append')
def m_append(cx):
    cx.set(0, append(cx.v(0), cx.v(1)))
    cx.set(1, NIL)
    return UNIT


@model('Vec::extend_from_slice')
def m_extend_slice(cx):
    cx.set(0, append(cx.v(0), cx.v(1)))
    return UNIT


@model('Vec::clear', 'LinkedList::clear', 'VecDeque::clear', 'String::clear')
def m_clear(cx):
    cx.set(0, S('') if 'String' in cx.n else NIL)
    return UNIT


@model('Vec::truncate')
def m_truncate(cx):
    v, n = cx.v(0), cx.v(1)
    cx.set(0, NIL if n.k == 'int' and n.a[0] == 0 else call('take', v, n))
    return UNIT


@model('Vec::remove', 'Vec::swap_remove')
def m_vremove(cx):
    v, i = cx.v(0), cx.v(1)
    cx.panic(NOT(lt(i, length(v))), 'Vec::remove', v, i)
    cx.set(0, call('remove_at', v, i))
    return cx.an.index(v, i)


@model('Vec::drain')
def m_vdrain(cx):
    v = cx.v(0)
    r = cx.v(1)
    if r.k == 'agg' and r.a[0].endswith('RangeFull'):
        cx.set(0, NIL)
        return mk('it', v, 0)
    cx.panic(range_bad(v, r, length(v)), 'Vec::drain', v, r)
    cx.set(0, call('drained', v, r))
    return mk('it', call('slice_of', v, r), 0)


@model('slice::sort', 'slice::sort_unstable', 'slice::reverse', 'Vec::dedup', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by',
       'slice::sort_unstable_by_key', 'Vec::dedup_by_key', 'slice::sort_by_cached_key', 'Vec::dedup_by', 'slice::rotate_left', 'slice::rotate_right')
def m_sort(cx):
    if 'rotate' in cx.n:
        cx.panic(lt(length(cx.v(0)), cx.v(1)), cx.n.rsplit('::', 1)[1], cx.v(0), cx.v(1))
    cx.set(0, call('sorted' if 'sort' in cx.n else cx.n.rsplit('::', 1)[1], *[cx.v(i) for i in range(len(cx.args))]))
    return UNIT


@model('Vec::retain', 'Vec::retain_mut')
def m_retain(cx):
    an = cx.an
    v = cx.v(0)
    acc = ('acc', an.fid('acc', cx.F.fid, cx.site))

    def body(x, s, c):
        g = nb(an.callv(cx.F, cx.args[1], [x], s, c, (cx.site, 1)))
        a = s[acc]
        s[acc] = seq(parts_of(a) + (('one', g, x),)) if a.k != 'gv' else gv([(g, push(a, x)), (NOT(g), a)])
        return [('next', c, s)]
    r = finish(cx, v, body, acc, NIL, 'retain')
    cx.set(0, r)
    return UNIT


@model('slice::first', 'LinkedList::front', 'VecDeque::front')
def m_first(cx):
    v = cx.v(0)
    e = empty(v)
    return gv([(NOT(e), some(first_of(v))), (e, NONE)])


def first_of(v):
    if v.k == 'gv':
        return gv([(g, first_of(w)) for g, w in v.a])
    if v.k == 'seq' and v.a and v.a[0][0] == 'one' and v.a[0][1] is TRUE:
        return v.a[0][2]
    return call('first', v)


@model('slice::last', 'LinkedList::back', 'VecDeque::back')
def m_last(cx):
    v = cx.v(0)
    e = empty(v)
    return gv([(NOT(e), some(cx.an.last_of(v))), (e, NONE)])


@model('slice::first_mut', 'LinkedList::front_mut', 'VecDeque::front_mut')
def m_first_mut(cx):
    e = empty(cx.v(0))
    return gv([(NOT(e), some(cx.an.subref(cx.ref(0), ('first',)))), (e, NONE)])


@model('slice::last_mut', 'LinkedList::back_mut', 'VecDeque::back_mut')
def m_last_mut(cx):
    e = empty(cx.v(0))
    return gv([(NOT(e), some(cx.an.subref(cx.ref(0), ('last',)))), (e, NONE)])


def isrange(v):
    return v.k == 'agg' and '::range::' in v.a[0]


@model('slice::get', 'VecDeque::get')
def m_get(cx):
    v, i = cx.v(0), cx.v(1)
    if isrange(i):
        return call('get_range', v, i)
    l = lt(i, length(v))
    return gv([(l, some(cx.an.index(v, i))), (NOT(l), NONE)])


@model('slice::get_mut', 'VecDeque::get_mut')
def m_get_mut(cx):
    v, i = cx.v(0), cx.v(1)
    l = lt(i, length(v))
    return gv([(l, some(cx.an.subref(cx.ref(0), ('i', i)))), (NOT(l), NONE)])


@model('RangeInclusive::new')
def m_range_incl(cx):
    return agg('core::ops::range::RangeInclusive', 0, cx.v(0), cx.v(1))


@model('RangeInclusive::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains', 'RangeBounds::contains')
def m_range_contains(cx):
    """lies a value in a range?"""
    c, ty = cx.gt(0)
    if ty is not None and ty['k'] == 'adt' and ty['p'].rsplit('::', 1)[-1].startswith('Range') and ty['a']:
        ty = c.types[ty['a'][0]]
    pos = ty is not None and poslike(cx.an, c, ty) == 'pos'
    x = cx.v(1)

    def inside(r):
        n = r.a[0].rsplit('::', 1)[-1] if r.k == 'agg' else ''
        lo, hi = {'Range': (2, 3), 'RangeInclusive': (2, 3), 'RangeFrom': (2, None), 'RangeTo': (None, 2), 'RangeToInclusive': (None, 2)}.get(n, (0, 0))
        if lo == 0 or len(r.a) <= max(lo or 0, hi or 0):
            return B(atom(mk('bool', call('range_contains', r, x))))
        l, h = [cx.an.load(cx.st, r.a[i]) if i else None for i in (lo, hi)]
        g = TRUE if l is None else nb(cmpv('ge', x, l, pos))
        return B(AND(g, nb(cmpv('le' if n.endswith('Inclusive') else 'lt', x, h, pos)) if h is not None else TRUE))
    return mapgv(inside, cx.v(0))


def range_bad(v, r, size, text=False):
    """the range does not lie within v"""
    n = r.a[0].rsplit('::', 1)[-1] if r.k == 'agg' else ''
    one = I(1)
    if n == 'RangeFull':
        return FALSE
    if n == 'Range':
        lo, hi = r.a[2], r.a[3]
    elif n == 'RangeFrom':
        lo, hi = r.a[2], None
    elif n == 'RangeTo':
        lo, hi = None, r.a[2]
    elif n == 'RangeToInclusive':
        lo, hi = None, add(r.a[2], one)
    else:
        return atom(mk('bool', call('bad_range', v, r)))
    if hi is None:
        bad = lt(size, lo)
    else:
        bad = lt(size, hi)
        if lo is not None:
            bad = OR(bad, lt(hi, lo))
    if text:
        for x in (lo, hi):
            if x is not None and not at_boundary(v, x, size):
                bad = OR(bad, atom(mk('bool', call('inside_char', v, x))))
    return bad


def at_boundary(v, x, size):
    if x is size or (x.k == 'int' and x.a[0] == 0):
        return True
    if x.k == 'call' and x.a[0] in ('char_to_byte', 'line_to_byte') and x.a[1] is v:
        return True
    # found by a search in the same text
    return x.k == 'f' and x.a[0].k == 'call' and str(x.a[0].a[0]).rsplit('::', 1)[-1] in ('find', 'rfind') and x.a[0].a[1] is v


@model('Index::index', 'IndexMut::index_mut')
def m_index(cx):
    v, i = cx.v(0), cx.v(1)
    mut = cx.n.endswith('_mut')
    c, ty = cx.gt(0)
    t = strip(cx.an, c, ty) if ty is not None else {'p': '', 's': '', 'k': ''}
    if t.get('p') in MAPS:
        o = mget(v, i)
        cx.panic(NOT(is_some(o)), 'map index', v, i)
        return payload(o)
    if isrange(i):
        if i.a[0].endswith('RangeFull'):
            return cx.ref(0) if mut else v
        cx.panic(range_bad(v, i, length(v), t.get('s') == 'str' or t.get('p') == 'alloc::string::String'), 'slice range', v, i)
        return call('slice_of', v, i)
    cx.panic(NOT(lt(i, length(v))), 'bounds', length(v), i)
    if mut:
        return cx.an.subref(cx.ref(0), ('i', i))
    return cx.an.index(v, i)


@model('slice::contains', 'VecDeque::contains', 'LinkedList::contains')
def m_contains(cx):
    v, x = cx.v(0), cx.v(1)
    c, ty = cx.gt(0)
    kind = poslike(cx.an, c, ty) if ty is not None else None
    bs = []
    r = FALSE
    for i, p in enumerate(parts_of(v)):
        if p[0] == 'one':
            r = OR(r, AND(p[1], eqt(cx.an, p[2], x, kind)))
        elif p[0] == 'for':
            r = OR(r, exists(p[1], AND(p[2], eqt(cx.an, p[3], x, kind))))
        else:
            e = mk('elem', p[1], cx.an.fid('cont', cx.F.fid, cx.site, i))
            r = OR(r, exists((e,), eqt(cx.an, e, x, kind)))
    return B(r)


# ------------------------------------------------------------------ iterators
def it_src(v):
    if v.k == 'it':
        src, pos = v.a
        if not pos:
            return src
        l = parts_of(src)
        if len(l) >= pos and all(p[0] == 'one' and p[1] is TRUE for p in l[:pos]):
            return seq(l[pos:])
        rest = past(src, pos)
        return rest if rest is not None else call('skip', src, I(pos))
    if v.k == 'gv':
        if all(x.k == 'it' for _, x in v.a):
            return gv([(g, it_src(x)) for g, x in v.a])
    return v


def to_iter(cx, i=0):
    """iterator over argument i"""
    an = cx.an
    a = cx.args[i]
    v = an.load(cx.st, a)
    if v.k == 'it':
        return v
    if v.k == 'gv' and all(x.k == 'it' for _, x in v.a):
        return mk('it', it_src(v), 0)
    if v.k in ('it1', 'itend', 'itu'):
        return v
    if v.k == 'agg' and v.a[0] == OPT:
        s = is_some(v)
        return mk('it', seq((('one', s, payload(v)),)), 0)
    if v.k == 'gv' and any(x.k == 'agg' and x.a[0] == OPT for _, x in v.a):
        return mk('it', seq((('one', is_some(v), payload(v)),)), 0)
    if isrange(v):
        if v.a[0].endswith('RangeInclusive'):
            return mk('it', rng_seq(v.a[2], add(v.a[3], I(1))), 0)
        if v.a[0].endswith('::Range'):
            return mk('it', rng_seq(v.a[2], v.a[3]), 0)
        return mk('it', call('from', v.a[2]) if len(v.a) > 2 else call('range', v), 0)
    # collections
    c, ty = cx.gt(0)
    byref = an.targets(a) is not None and ty is not None and ty['k'] == 'refmut'
    t = strip(an, c, ty) if ty is not None else None
    p = t['p'] if t is not None and t['k'] == 'adt' else ''
    if p in MAPS:
        return mutentries(cx, i) if byref else mk('it', entries(v), 0)
    if p in SETS:
        return mk('it', over(cx, entries(v), lambda e: field(e, '()', 0, 0), 'k'), 0)
    if p == OPT:
        return mk('it', seq((('one', is_some(v), payload(v)),)), 0)
    if byref:
        return mutseq(cx, i)
    return mk('it', v, 0)


def rng_seq(a, b):
    if a.k == 'int' and b.k == 'int' and b.a[0] - a.a[0] <= 64:
        return ones([I(x) for x in range(a.a[0], b.a[0])])
    return call('range', a, b)


def mutseq(cx, i=0):
    """iterator over references to the elements"""
    an = cx.an
    ref = cx.ref(i)
    v = an.load(cx.st, ref)
    l = literal(v)
    if l is not None:
        return mk('it', ones([an.subref(ref, ('i', I(j))) for j in range(len(l))]), 0)
    e = mk('elem', v, an.fid('mut', cx.F.fid, cx.site))
    return mk('it', seq((tm.normpart(('for', (e,), TRUE, an.subref(ref, ('e', e)))),)), 0)


def own_place(src):
    """the element and its reference, of an iterator over references to all elements of a sequence"""
    ps = parts_of(src) if src.k == 'seq' else ()
    if len(ps) == 1 and ps[0][0] == 'for' and len(ps[0][1]) == 1 and ps[0][2] is TRUE and ps[0][3].k == 'ref':
        e, r = ps[0][1][0], ps[0][3]
        if e.k == 'elem' and r.a[1] and r.a[1][-1] == ('e', e):
            return e, r
    return None


def past(src, pos):
    """what an iterator over references yields after the first ones"""
    o = own_place(src)
    if o is None:
        return None
    i = call('index_of', o[0])
    return seq((tm.normpart(('for', (o[0],), all_of(NOT(eq(i, I(n))) for n in range(pos)), o[1])),))


@model('IntoIterator::into_iter')
def m_into_iter(cx):
    a = cx.args[0]
    c, ty = cx.gt(0)
    if ty is not None and ty['k'] == 'refmut' and cx.an.load(cx.st, a).k in ('it', 'it1', 'itu', 'itend'):
        return a
    return to_iter(cx)


@model('slice::iter', 'LinkedList::iter', 'VecDeque::iter', 'vec::IntoIter::into_iter')
def m_iter(cx):
    return mk('it', cx.v(0), 0)


@model('slice::iter_mut', 'LinkedList::iter_mut', 'VecDeque::iter_mut')
def m_iter_mut(cx):
    return mutseq(cx)


@model('Iterator::next', 'DoubleEndedIterator::next_back', 'StreamingIterator::next', 'Peekable::peek')
def m_next(cx):
    an = cx.an
    ref = cx.ref(0)
    v = an.load(cx.st, ref)
    if not cx.n.endswith('Iterator::next'):
        x = call(facts.short(cx.n), v)
        if not cx.n.endswith('peek'):
            an.store(cx.st, ref, mk('it', call('after_back', it_src(v)), 0))
        return x
    if v.k == 'it1':
        an.store(cx.st, ref, mk('itu', v.a[0]))
        return some(v.a[1])
    if v.k == 'itend':
        return NONE
    if v.k == 'itu':
        return call('again', S(str(v.a[0])))
    if v.k == 'it':
        src, pos = v.a
        an.store(cx.st, ref, mk('it', src, pos + 1))
        o = own_place(src)
        if o is not None:
            whole = o[0].a[0]
            e = NOT(lt(I(pos), length(whole))) if pos else empty(whole)
            return gv([(NOT(e), some(mk('ref', o[1].a[0], o[1].a[1][:-1] + (('i', I(pos)),)))), (e, NONE)])
        s = it_src(v)
        l = parts_of(s)
        if not (s.k == 'seq') or not l:
            if s is NIL:
                return NONE
            e = empty(s)
            return gv([(NOT(e), some(call('first', s))), (e, NONE)])
        if l[0][0] == 'one' and l[0][1] is TRUE:
            return some(l[0][2])
        e = empty(s)
        return gv([(NOT(e), some(call('first', s))), (e, NONE)])
    if isrange(v):
        e = NOT(lt(v.a[2], v.a[3]))
        an.store(cx.st, ref, agg(v.a[0], v.a[1], add(v.a[2], I(1)), v.a[3]))
        return gv([(NOT(e), some(v.a[2])), (e, NONE)])
    an.store(cx.st, ref, call('advanced', v))
    r = call('next', v)
    return r


def finish(cx, src, body, acc, init, tag):
    """iterate without early exit, result in the accumulator"""
    brk, (c, s), itk = cx.an.iterate(cx.F, src, cx.st, cx.cond, (cx.site, tag), body, {acc: init})
    alts = brk + [(c, s)]
    c, s = cx.an.merge(alts)
    cx.st.clear()
    cx.st.update(s)
    r = cx.st.pop(acc, init)
    cx.st.pop(itk, None)
    cx.cond = c
    return r


def acckey(cx):
    return ('acc', cx.an.fid('acc', cx.F.fid, cx.site))


def opush(a, g, x):
    if a.k == 'gv':
        return gv([(h, opush(w, g, x)) for h, w in a.a])
    return seq(parts_of(a) + (('one', g, x),))


@model('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::flat_map', 'Iterator::inspect', 'Iterator::flatten',
       'Iterator::take_while', 'Iterator::skip_while', 'Iterator::map_while')
def m_adapt(cx):
    an = cx.an
    kind = cx.n.rsplit('::', 1)[1]
    it = to_iter(cx)
    if it.k != 'it':
        src = call('rest', it)
    else:
        src = it_src(it)
    f = cx.args[1] if len(cx.args) > 1 else None
    acc = acckey(cx)

    def sub_iter(y, s):
        fake = Cx(an, cx.F, cx.n, cx.p, cx.r, (), [y], s, cx.cond, (cx.site, 'sub'), cx.span, None)
        t = to_iter(fake)
        return it_src(t) if t.k == 'it' else t

    def body(x, s, c):
        a = s[acc]
        if kind == 'flatten':
            s[acc] = append(a, sub_iter(x, s))
            return [('next', c, s)]
        y = an.callv(cx.F, f, [x], s, c, (cx.site, 1))
        a = s[acc]
        if kind == 'map':
            s[acc] = push(a, y)
        elif kind == 'inspect':
            s[acc] = push(a, x)
        elif kind == 'filter':
            s[acc] = opush(a, nb(y), x)
        elif kind == 'filter_map':
            s[acc] = opush(a, is_some(y), payload(y))
        elif kind == 'flat_map':
            s[acc] = append(a, sub_iter(y, s))
        elif kind in ('take_while', 'map_while'):
            g = nb(y) if kind == 'take_while' else is_some(y)
            s2 = dict(s)
            s[acc] = push(a, x if kind == 'take_while' else payload(y))
            return [('next', AND(c, g), s), ('break', AND(c, NOT(g)), s2)]
        elif kind == 'skip_while':
            s[acc] = opush(a, NOT(nb(y)), x)
        return [('next', c, s)]
    if kind in ('take_while', 'map_while', 'skip_while') and literal(src) is None:
        # closure effects matter, the prefix itself is opaque
        def body2(x, s, c):
            y = an.callv(cx.F, f, [x], s, c, (cx.site, 1))
            g = nb(y) if kind != 'map_while' else is_some(y)
            if kind == 'skip_while':
                g = NOT(g)
            s[acc] = opush(s[acc], g, x if kind != 'map_while' else payload(y))
            return [('next', c, s)]
        r = finish(cx, src, body2, acc, NIL, kind)
        return mk('it', call('prefix' if kind != 'skip_while' else 'suffix', src, r), 0)
    r = finish(cx, src, body, acc, NIL, kind)
    return mk('it', r, 0)


@model('Iterator::enumerate')
def m_enumerate(cx):
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else it
    l = literal(src)
    if l is not None:
        return mk('it', ones([tup(I(i), x) for i, x in enumerate(l)]), 0)
    if src.k == 'seq' and len(src.a) == 1 and src.a[0][0] == 'for' and len(src.a[0][1]) == 1 and src.a[0][2] is TRUE:
        # one item for every element of the underlying sequence: same places
        b = src.a[0][1][0]
        return mk('it', seq((('for', (b,), TRUE, tup(call('index_of', b), src.a[0][3])),)), 0)
    e = mk('elem', src, cx.an.fid('enum', cx.F.fid, cx.site))
    return mk('it', seq((tm.normpart(('for', (e,), TRUE, tup(call('index_of', e), e))),)), 0)


@model('Iterator::rev', 'Iterator::skip', 'Iterator::take', 'Iterator::chain', 'Iterator::zip', 'Iterator::step_by')
def m_reshape(cx):
    kind = cx.n.rsplit('::', 1)[1]
    if kind == 'step_by':
        cx.panic(eq(cx.v(1), I(0)), 'step_by', cx.v(1))
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else it
    if kind == 'rev':
        l = literal(src)
        if l is not None:
            return mk('it', ones(l[::-1]), 0)
        return mk('it', call('rev', src), 0)
    if kind == 'chain':
        fake = Cx(cx.an, cx.F, cx.n, cx.p, cx.r, cx.gens[1:], [cx.args[1]], cx.st, cx.cond, (cx.site, 'b'), cx.span, None)
        b = to_iter(fake)
        return mk('it', append(src, it_src(b) if b.k == 'it' else b), 0)
    if kind == 'zip':
        fake = Cx(cx.an, cx.F, cx.n, cx.p, cx.r, cx.gens[1:], [cx.args[1]], cx.st, cx.cond, (cx.site, 'b'), cx.span, None)
        b = to_iter(fake)
        bsrc = it_src(b) if b.k == 'it' else b
        l1, l2 = literal(src), literal(bsrc)
        if l1 is not None and l2 is not None:
            return mk('it', ones([tup(x, y) for x, y in zip(l1, l2)]), 0)
        if bsrc.k == 'call' and bsrc.a[0] == 'from' and src.k != 'gv':
            e = mk('elem', src, cx.an.fid('enum', cx.F.fid, cx.site))
            return mk('it', seq((tm.normpart(('for', (e,), TRUE, tup(e, add(bsrc.a[1], call('index_of', e))))),)), 0)
        return mk('it', call('zip', src, bsrc), 0)
    n = cx.v(1)
    l = literal(src)
    if l is not None and n.k == 'int':
        l = l[n.a[0]:] if kind == 'skip' else l[:n.a[0]] if kind == 'take' else l[::n.a[0]]
        return mk('it', ones(l), 0)
    if kind == 'skip' and n.k == 'int' and n.a[0] == 0:
        return mk('it', src, 0)
    return mk('it', call(kind, src, n), 0)


@model('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::find_map', 'Iterator::position')
def m_search(cx):
    an = cx.an
    kind = cx.n.rsplit('::', 1)[1]
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else call('rest', it)
    f = cx.args[1]
    acc = acckey(cx)
    init = {'any': FF, 'all': TT}.get(kind, NONE)

    def body(x, s, c):
        y = an.callv(cx.F, f, [x], s, c, (cx.site, 1))
        if kind in ('any', 'find', 'position'):
            g = nb(y)
        elif kind == 'all':
            g = NOT(nb(y))
        else:
            g = is_some(y)
        s2 = dict(s)
        s2[acc] = {'any': TT, 'all': FF, 'find': some(x), 'find_map': some(payload(y)), 'position': some(call('index_of', x))}[kind]
        return [('break', AND(c, g), s2), ('next', AND(c, NOT(g)), s)]
    r = finish(cx, src, body, acc, init, kind)
    if cx.an.targets(cx.args[0]) is not None:
        cx.an.store(cx.st, cx.args[0], mk('it', call('rest', src), 0))
    return r


@model('Iterator::for_each', 'Iterator::try_for_each')
def m_for_each(cx):
    an = cx.an
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else call('rest', it)
    acc = acckey(cx)

    def body(x, s, c):
        an.callv(cx.F, cx.args[1], [x], s, c, (cx.site, 1))
        return [('next', c, s)]
    if cx.n.endswith('::try_for_each'):
        tys = [cx.gt(i)[1] for i in range(len(cx.gens))]
        ps = [t['p'] for t in tys if t is not None and t.get('p') in (OPT, RES)]

        def tried(x, s, c):
            y = an.callv(cx.F, cx.args[1], [x], s, c, (cx.site, 1))
            if not ps:
                return [('next', c, s)]
            good = is_some(y) if ps[-1] == OPT else tm.is_variant(y, 0, 2)
            s2 = dict(s)
            s2[acc] = y
            return [('break', AND(c, NOT(good)), s2), ('next', AND(c, good), s)]
        if not ps:
            finish(cx, src, tried, acc, UNIT, 'each')
            return call('try_for_each', src)
        return finish(cx, src, tried, acc, some(UNIT) if ps[-1] == OPT else ok(UNIT), 'each')
    finish(cx, src, body, acc, UNIT, 'each')
    return UNIT


@model('Iterator::fold')
def m_fold(cx):
    an = cx.an
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else call('rest', it)
    acc = acckey(cx)

    def body(x, s, c):
        s[acc] = an.callv(cx.F, cx.args[2], [s[acc], x], s, c, (cx.site, 1))
        return [('next', c, s)]
    return finish(cx, src, body, acc, cx.args[1], 'fold')


@model('Iterator::count')
def m_count(cx):
    it = to_iter(cx)
    return length(it_src(it)) if it.k == 'it' else call('count', it)


@model('Iterator::max', 'Iterator::min', 'Iterator::sum', 'Iterator::product', 'Iterator::last', 'Iterator::nth')
def m_reduce(cx):
    kind = cx.n.rsplit('::', 1)[1]
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else call('rest', it)
    if kind == 'last':
        e = empty(src)
        return gv([(NOT(e), some(cx.an.last_of(src))), (e, NONE)])
    if kind == 'nth':
        i = cx.v(1)
        l = literal(src)
        if l is not None and i.k == 'int':
            return some(l[i.a[0]]) if i.a[0] < len(l) else NONE
        if i.k == 'int' and i.a[0] == 0:
            e = empty(src)
            return gv([(NOT(e), some(first_of(src))), (e, NONE)])
        return call('nth', src, i)
    if kind in ('max', 'min'):
        e = empty(src)
        return gv([(NOT(e), some(call(kind, src))), (e, NONE)])
    return call(kind, src)


@model('Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max_by', 'Iterator::min_by', 'Iterator::partition', 'Iterator::reduce', 'Iterator::try_fold')
def m_reduceby(cx):
    kind = cx.n.rsplit('::', 1)[1]
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else call('rest', it)
    if kind == 'partition':
        acc = acckey(cx)

        def body(x, s, c):
            g = nb(cx.an.callv(cx.F, cx.args[1], [x], s, c, (cx.site, 1)))
            a = s[acc]
            s[acc] = tup(opush(field(a, '()', 0, 0), g, x), opush(field(a, '()', 0, 1), NOT(g), x))
            return [('next', c, s)]
        return finish(cx, src, body, acc, tup(NIL, NIL), kind)
    e = empty(src)
    by = list(cx.args[1:])
    if kind.endswith('_by_key'):
        by = [cx.an.load(cx.st, cx.callf(cx.args[1], [tm.sym('item')], dict(cx.st), cx.cond, 1))]
    elif kind in ('max_by', 'min_by'):
        by = [cx.callf(cx.args[1], [tm.sym('a'), tm.sym('b')], dict(cx.st), cx.cond, 1)]
    return gv([(NOT(e), some(call(kind, src, *by))), (e, NONE)])


def collect_map(cx, src, what):
    m = EMAP
    for i, p in enumerate(parts_of(src)):
        if p[0] == 'one':
            k, v = (p[2], UNIT) if what == 'set' else (field(p[2], '()', 0, 0), field(p[2], '()', 0, 1))
            m2 = mput(m, k, v)
            m = m2 if p[1] is TRUE else gv([(p[1], m2), (NOT(p[1]), m)])
        else:
            if p[0] == 'all':
                e = mk('elem', p[1], cx.an.fid('coll', cx.F.fid, cx.site, i))
                bs, g, x = (e,), TRUE, e
            else:
                bs, g, x = p[1], p[2], p[3]
            k, v = (x, UNIT) if what == 'set' else (field(x, '()', 0, 0), field(x, '()', 0, 1))
            m = tm.mkmfor(m, bs, g, k, v)
    return m


def collect_str(cx, src):
    out = []
    for i, p in enumerate(parts_of(src)):
        if p[0] == 'one':
            out.append(p[2] if p[1] is TRUE else gv([(p[1], p[2]), (NOT(p[1]), S(''))]))
        elif p[0] == 'all':
            if p[1].k == 'call' and p[1].a[0] == 'chars':
                out.append(p[1].a[1])
            else:
                out.append(call('concat', p[1]))
        else:
            out.append(tm.mkbind('catfor', p[1], p[2], p[3]))
    return cat(*out)


@model('Iterator::collect', 'FromIterator::from_iter')
def m_collect(cx):
    it = to_iter(cx)
    src = it_src(it) if it.k == 'it' else call('rest', it)
    if cx.n.endswith('from_iter'):
        c, ty = cx.gt(0)
    else:
        c, ty = cx.gt(1)
    if ty is None or ty['k'] != 'adt':
        return src
    p = ty['p']
    if p in MAPS:
        return collect_map(cx, src, 'map')
    if p in SETS:
        return collect_map(cx, src, 'set')
    if p == 'alloc::string::String':
        return collect_str(cx, src)
    if p in (OPT, RES):
        l = literal(src)
        bad = FALSE
        return call('collect', S(p), src)
    return src


@model('Extend::extend')
def m_extend(cx):
    an = cx.an
    c, ty = cx.gt(0)
    fake = Cx(an, cx.F, cx.n, cx.p, cx.r, cx.gens[2:], [cx.args[1]], cx.st, cx.cond, (cx.site, 'b'), cx.span, None)
    b = to_iter(fake)
    src = it_src(b) if b.k == 'it' else call('rest', b)
    v = cx.v(0)
    p = ty['p'] if ty is not None else ''
    if p in MAPS or p in SETS:
        m = collect_map(cx, src, 'set' if p in SETS else 'map')
        cx.emit()
        ks = []
        b_ = m
        while b_.k == 'put':
            ks.append(b_)
            b_ = b_.a[0]
        if b_.k == 'emap':
            for x in reversed(ks):
                v = mput(v, x.a[1], x.a[2])
            cx.set(0, v)
        elif b_.k == 'mfor' and b_.a[1].k == 'emap' and not ks:
            cx.set(0, mk('mfor', b_.a[0], v, *b_.a[2:]))
        else:
            cx.set(0, call('extended', v, m))
        return UNIT
    if p == 'alloc::string::String':
        cx.set(0, cat(v, collect_str(cx, src)))
        return UNIT
    cx.set(0, append(v, src))
    return UNIT


@model('slice::join', 'slice::concat')
def m_join(cx):
    v = cx.v(0)
    l = literal(v)
    if l is not None:
        if cx.n.endswith('join'):
            o = []
            for i, x in enumerate(l):
                if i:
                    o.append(cx.v(1))
                o.append(x)
            return cat(*o) if o else S('')
        return cat(*l) if l else S('')
    return call('join', v, cx.v(1)) if cx.n.endswith('join') else call('concat', v)


# ------------------------------------------------------------------ strings
@model('String::push', 'String::push_str')
def m_push_str(cx):
    v = cx.v(0)
    x = cx.v(1)
    cx.set(0, tm.mapgv(lambda w: cat(w, x), v))
    return UNIT


@model('ToOwned::clone_into')
def m_clone_into(cx):
    cx.set(1, cx.v(0))
    return UNIT


@model('Clone::clone_from')
def m_clone_from(cx):
    cx.set(0, cx.v(1))
    return UNIT


@model('Add::add')
def m_add(cx):
    c, ty = cx.gt(0)
    if ty is not None and ty['k'] == 'adt' and ty['p'] == 'alloc::string::String':
        return cat(cx.v(0), cx.v(1))
    return add(cx.v(0), cx.v(1))


@model('AddAssign::add_assign')
def m_addassign(cx):
    c, ty = cx.gt(0)
    if ty is not None and ty['k'] == 'adt' and ty['p'] == 'alloc::string::String':
        cx.set(0, cat(cx.v(0), cx.v(1)))
    else:
        cx.set(0, add(cx.v(0), cx.v(1)))
    return UNIT


@model('str::starts_with', 'str::ends_with', 'str::contains')
def m_strpred(cx):
    k = cx.n.rsplit('::', 1)[1]
    a, b = cx.v(0), cx.v(1)
    if b.k in ('agg', 'fnv'):
        if b.k == 'fnv' or b.a[0] in cx.an.prog.bodies:
            b = call('pred', b)
    if b.k == 'str':
        if not b.a[0]:
            return TT
        if a.k == 'str':
            return TT if {'starts_with': a.a[0].startswith(b.a[0]), 'ends_with': a.a[0].endswith(b.a[0]), 'contains': b.a[0] in a.a[0]}[k] else FF
        if a.k == 'cat':
            if k == 'starts_with' and a.a[0].k == 'str' and (len(a.a[0].a[0]) >= len(b.a[0]) or not b.a[0].startswith(a.a[0].a[0])):
                return TT if a.a[0].a[0].startswith(b.a[0]) else FF
            if k == 'contains' and any(x.k == 'str' and b.a[0] in x.a[0] for x in a.a):
                return TT
    return B(nb(call(k, a, b)))


@model('str::strip_prefix', 'str::strip_suffix', 'str::find', 'str::rfind', 'str::split_once', 'str::rsplit_once', 'str::parse',
       'str::trim', 'str::trim_start', 'str::trim_end', 'str::to_lowercase', 'str::to_uppercase', 'str::replace', 'str::replacen',
       'str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches', 'str::repeat', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase',
       'str::eq_ignore_ascii_case', 'str::is_char_boundary', 'str::char_count', 'char::len_utf8', 'char::len_utf16', 'char::is_whitespace', 'char::is_alphanumeric',
       'char::is_alphabetic', 'char::is_ascii_digit', 'char::is_numeric', 'u8::is_ascii_whitespace', 'char::is_ascii_alphanumeric',
       'String::truncate_', 'slice::starts_with', 'slice::ends_with', 'u32::to_string', 'usize::pow', 'u32::pow', 'u32::abs_diff', 'usize::abs_diff',
       'Path::extension', 'Path::file_name', 'Path::file_stem', 'Path::parent', 'Path::is_absolute', 'Path::starts_with', 'Path::ends_with',
       'OsStr::to_os_string', 'Path::components', 'Path::is_relative', 'Path::has_root')
def m_pure(cx):
    k = facts.short(cx.n)
    r = call(k, *[cx.v(i) for i in range(len(cx.args))])
    return r


@model('str::get')
def m_strget(cx):
    return call('substr', cx.v(0), cx.v(1))


@model('str::split', 'str::chars', 'str::lines', 'str::matches', 'str::bytes', 'str::char_indices', 'str::split_whitespace', 'str::rsplit', 'str::splitn', 'str::rsplitn',
       'str::split_terminator', 'str::encode_utf16', 'str::match_indices', 'str::split_inclusive', 'str::rmatches', 'RopeSlice::chars', 'Rope::chars', 'Rope::lines', 'RopeSlice::lines')
def m_striter(cx):
    k = cx.n.rsplit('::', 1)[1]
    return mk('it', call(k, *[cx.v(i) for i in range(len(cx.args))]), 0)


@model('str::from_utf8', 'String::from_utf8', 'converts::from_utf8')
def m_from_utf8(cx):
    v = cx.v(0)
    if bytes_valid(v):
        return ok(v)
    bad = atom(mk('bool', call('bad_utf8', v)))
    return gv([(NOT(bad), ok(v)), (bad, err(call('utf8_error', v)))])


@model('String::from_utf8_lossy')
def m_from_utf8_lossy(cx):
    return cx.v(0)


def bytes_valid(v):
    return v.k in ('str', 'cat') or (v.k == 'call' and v.a[0] in ('text', 'str', 'node_text', 'chunk'))


@model('Path::to_str', 'OsStr::to_str', 'OsString::into_string')
def m_to_str(cx):
    v = cx.v(0)
    if v.k in ('str',):
        return some(v)
    bad = atom(mk('bool', call('not_utf8', v)))
    if cx.n.endswith('into_string'):
        return gv([(NOT(bad), ok(v)), (bad, err(v))])
    return gv([(NOT(bad), some(v)), (bad, NONE)])


@model('Path::join')
def m_pjoin(cx):
    return joinp(cx.v(0), cx.v(1))


def joinp(a, b):
    if a.k == 'gv':
        return gv([(g, joinp(x, b)) for g, x in a.a])
    if b.k == 'gv':
        return gv([(g, joinp(a, x)) for g, x in b.a])
    return call('join_path', a, b)


@model('PathBuf::push')
def m_ppush(cx):
    cx.set(0, joinp(cx.v(0), cx.v(1)))
    return UNIT


@model('Path::strip_prefix')
def m_strip(cx):
    a, b = cx.v(0), cx.v(1)
    bad = atom(mk('bool', call('not_below', a, b)))
    return gv([(NOT(bad), ok(call('strip', a, b))), (bad, err(call('strip_error', a, b)))])


# ------------------------------------------------------------------ formatting
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex')
def m_arg(cx):
    c, ty = cx.gt(0)
    if not cx.n.endswith('display'):
        return call('debug', cx.v(0))
    return display(cx, cx.args[0], c, ty)


STRS = ('alloc::string::String', 'url::Url', 'alloc::borrow::Cow', 'std::path::Display', 'ropey::rope::Rope')


def display(cx, arg, c, ty):
    an = cx.an
    v = an.load(cx.st, arg)
    t = strip(an, c, ty) if ty is not None else None
    if t is None:
        return call('display', v)
    if t['k'] == 'prim':
        if t['s'] in ('str', 'char'):
            return v
        if v.k == 'int':
            return S(str(v.a[0]))
        return call('itoa', v)
    if t['k'] == 'adt':
        if t['p'] == 'ropey::rope::Rope':
            return text_of(v)
        if t['p'] in STRS:
            return v
        b = an.prog.bodies.get('<%s as core::fmt::Display>::fmt' % t['s']) or an.nolt_bodies().get(nolt('<%s as core::fmt::Display>::fmt' % t['s']))
        if b is not None:
            root = ('sink', an.fid('sink', cx.F.fid, cx.site))
            cx.st[root] = S('')
            an.call_local(cx.F, b, [arg, mk('ref', root, ())], cx.st, cx.cond, (cx.site, 'fmt'))
            r = cx.st.pop(root)
            return r
    return call('display', v)


@model('ToString::to_string')
def m_to_string(cx):
    c, ty = cx.gt(0)
    return display(cx, cx.args[0], c, ty)


@model('Formatter::write_str', 'Write::write_str', 'Formatter::pad', 'Write::write_char')
def m_write_str(cx):
    v = cx.v(0)
    x = cx.v(1)
    cx.set(0, tm.mapgv(lambda w: cat(w, x), v))
    return ok(UNIT)


@model('Formatter::write_fmt', 'Write::write_fmt')
def m_write_fmt(cx):
    return m_write_str(cx)


@model('Display::fmt')
def m_display_fmt(cx):
    c, ty = cx.gt(0)
    x = display(cx, cx.args[0], c, ty)
    v = cx.v(1)
    cx.set(1, tm.mapgv(lambda w: cat(w, x), v))
    return ok(UNIT)


def expand_template(tpl, args):
    out = []
    i = 0
    nxt = 0
    n = len(tpl)
    while i < n:
        b = tpl[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(S(bytes(tpl[i:i + b]).decode('utf8', 'replace')))
            i += b
        elif b == 0x80:
            l = tpl[i] | (tpl[i + 1] << 8)
            i += 2
            out.append(S(bytes(tpl[i:i + l]).decode('utf8', 'replace')))
            i += l
        else:
            fl = b & 0x3f
            if fl & 1:
                i += 4
            if fl & 2:
                i += 2
            if fl & 4:
                i += 2
            if fl & 8:
                nxt = tpl[i] | (tpl[i + 1] << 8)
                i += 2
            x = args[nxt] if nxt < len(args) else UNDEF
            nxt += 1
            out.append(call('fmtopt', x) if fl & 7 else x)
    return cat(*out) if out else S('')


@model('Arguments::new')
def m_args_new(cx):
    t = cx.v(0)
    a = literal(cx.v(1))
    if t.k == 'bytes' and a is not None:
        return expand_template(t.a[0], a)
    return call('format', t, cx.v(1))


@model('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def m_args_str(cx):
    return cx.v(0)


@model('fmt::format')
def m_format(cx):
    return cx.v(0)


# ------------------------------------------------------------------ futures, tasks, channels
@model('Future::poll')
def m_poll(cx):
    an = cx.an
    f = cx.v(0)
    r = poll_value(cx, f, 0)
    return agg(POLL, READY, r)


def poll_value(cx, f, n):
    an = cx.an
    if f.k == 'gv':
        k = [0]

        def one(x):
            k[0] += 1
            i = k[0]
            return lambda st, c: poll_in(cx, x, st, c, i)
        return cx.branch([(g, one(x)) for g, x in f.a])
    v = poll_in(cx, f, cx.st, cx.cond, n, top=True)
    return v


def poll_in(cx, f, st, cond, n, top=False):
    an = cx.an
    if f.k == 'agg':
        b = cx.F.crate.bodies.get(f.a[0]) or an.prog.bodies.get(f.a[0])
        if b is not None:
            v, c = an.call_local(cx.F, b, [f, UNIT], st, cond, (cx.site, 'poll', n))
            if top:
                cx.cond = c
            return v
    r = call('await', f)
    an.emit(cx.F, 'call', 'await', (f,), (f,), r, cond, cx.span)
    return r


@model('spawn::spawn', 'task::spawn', 'Handle::spawn', 'Runtime::spawn', 'JoinSet::spawn', 'thread::spawn', 'task::spawn_local', 'task::spawn_blocking', 'blocking::spawn_blocking')
def m_spawn(cx):
    an = cx.an
    f = cx.args[-1]
    fv = an.load(cx.st, f)
    r = call('task', fv)
    cx.emit(r)
    saved = an.ctx
    an.ctx = an.ctx + (('spawn', cx.F.stack[-1], cx.span),)
    s = dict(cx.st)
    for g, x in cases(fv):
        if x.k == 'agg':
            b = cx.F.crate.bodies.get(x.a[0]) or an.prog.bodies.get(x.a[0])
            if b is not None:
                if b['kind'] == 'closure':
                    v = an.callv(cx.F, x, [], dict(s), AND(cx.cond, g), (cx.site, 'spawn'))
                    an.tasks.append((an.ctx, x, v, AND(cx.cond, g), None))
                else:
                    v, c = an.call_local(cx.F, b, [x, UNIT], dict(s), AND(cx.cond, g), (cx.site, 'spawn'))
                    an.tasks.append((an.ctx, x, v, AND(cx.cond, g), c))
            else:
                cx.emit(call('opaque task', x))
                an.tasks.append((an.ctx, x, None, AND(cx.cond, g), None))
    an.ctx = saved
    return r


@model('Runtime::block_on', 'Handle::block_on', 'executor::block_on')
def m_block_on(cx):
    cx.emit(UNIT)
    return poll_value(cx, cx.v(1), 0)


@model('bounded::channel', 'mpsc::channel')
def m_channel(cx):
    cx.panic(eq(cx.v(0), I(0)), 'channel', cx.v(0))
    i = cx.an.fid('chan', cx.F.fid, cx.site)
    c = mk('chan', i, cx.v(0))
    cx.emit(c)
    return tup(call('tx', c), call('rx', c))


@model('unbounded::unbounded_channel', 'mpsc::unbounded_channel')
def m_uchannel(cx):
    i = cx.an.fid('chan', cx.F.fid, cx.site)
    c = mk('chan', i, sym('unbounded'))
    cx.emit(c)
    return tup(call('tx', c), call('rx', c))


@model('oneshot::channel')
def m_oneshot(cx):
    i = cx.an.fid('chan', cx.F.fid, cx.site)
    c = mk('chan', i, sym('oneshot'))
    cx.emit(c)
    return tup(call('otx', c), call('orx', c))


@model('Receiver::recv', 'UnboundedReceiver::recv')
def m_recv(cx):
    v = cx.v(0)
    r = call('recv', v)
    cx.emit(r)
    return r


@model('Sender::send', 'UnboundedSender::send', 'Sender::try_send', 'Sender::blocking_send', 'Sender::send_timeout', 'Sender::reserve')
def m_send(cx):
    if cx.n.endswith('blocking_send'):
        cx.panic(opaque(cx), 'blocking_send')
    r = call('send', cx.v(0), cx.v(1)) if len(cx.args) > 1 else call('send', cx.v(0))
    cx.emit(r)
    return r


@model('LspService::build', 'LspService::new')
def m_service(cx):
    """the server object is made by the given function; its notification and request handlers run on it"""
    an = cx.an
    b = cx.callf(cx.args[0], [sym('client')])
    cx.emit(b)
    an.backends.append((b, dict(cx.st), cx.F))
    return call('service', b)


@model('TreeCursor::goto_first_child', 'TreeCursor::goto_last_child', 'TreeCursor::goto_next_sibling', 'TreeCursor::goto_parent')
def m_cursor_move(cx):
    v = cx.v(0)
    k = cx.n.rsplit('::', 1)[1]
    cx.set(0, call(k, v))
    return B(atom(mk('bool', call('can_' + k, v))))


@model('TreeCursor::reset')
def m_cursor_reset(cx):
    cx.set(0, call('Node::walk', cx.v(1)))
    return UNIT


# ------------------------------------------------------------------ urls, ropes, trees
def furl(p):
    return mk('call', 'furl', p)


@model('Url::parse')
def m_url_parse(cx):
    v = cx.v(0)
    outs = []
    for g, x in cases(v):
        if isurl(x):
            outs.append((g, ok(x)))
            continue
        bad = atom(mk('bool', call('bad_url', x)))
        outs.append((AND(g, NOT(bad)), ok(x)))
        outs.append((AND(g, bad), err(call('url_error', x))))
    r = gv(outs)
    cx.emit(r)
    return r


def isurl(x):
    if x.k == 'call' and x.a[0] == 'furl':
        return True
    if x.k == 'f' and x.a[3] == 0 and x.a[1].startswith('lsp_types::') and x.a[1].endswith('Identifier'):
        return True
    return False


@model('Url::from_file_path', 'Url::from_directory_path')
def m_furl(cx):
    v = cx.v(0)
    outs = []
    for g, x in cases(v):
        bad = atom(mk('bool', call('relative', x)))
        if x.k == 'call' and x.a[0] == 'canonical':
            bad = FALSE
        u = x.a[1] if x.k == 'call' and x.a[0] == 'upath' else furl(x)
        outs.append((AND(g, NOT(bad)), ok(u)))
        outs.append((AND(g, bad), err(UNIT)))
    r = gv(outs)
    cx.emit(r)
    return r


@model('Url::to_file_path')
def m_upath(cx):
    v = cx.v(0)
    outs = []
    for g, x in cases(v):
        if x.k == 'call' and x.a[0] == 'furl':
            outs.append((g, ok(x.a[1])))
            continue
        bad = atom(mk('bool', call('no_path', x)))
        outs.append((AND(g, NOT(bad)), ok(call('upath', x))))
        outs.append((AND(g, bad), err(UNIT)))
    r = gv(outs)
    cx.emit(r)
    return r


@model('fs::canonicalize', 'Path::canonicalize', 'fs::read_to_string')
def m_fs(cx):
    v = cx.v(0)
    k = {'canonicalize': 'canonical', 'read_to_string': 'content'}[cx.n.rsplit('::', 1)[1]]
    bad = atom(mk('bool', call('no_' + k, v)))
    r = gv([(NOT(bad), ok(call(k, v))), (bad, err(call('io_error', S(k), v)))])
    cx.emit(r)
    return r


@model('Path::exists', 'fs::exists', 'Path::try_exists')
def m_exists(cx):
    there = NOT(atom(mk('bool', call('no_canonical', cx.v(0)))))
    return B(there) if cx.n == 'Path::exists' or cx.n.endswith('path::Path::exists') else ok(B(there))


@model('Rope::from_str')
def m_rope(cx):
    v = cx.v(0)
    return rope_of(v)


def rope_of(v):
    if v.k == 'gv':
        return gv([(g, rope_of(x)) for g, x in v.a])
    if v.k == 'call' and v.a[0] == 'text':
        return v.a[1]
    return call('rope', v)


def text_of(v):
    if v.k == 'gv':
        return gv([(g, text_of(x)) for g, x in v.a])
    if v.k == 'call' and v.a[0] == 'rope':
        return v.a[1]
    if v.k == 'undef':
        return v
    return call('text', v)


@model('Rope::write_to')
def m_write_to(cx):
    an = cx.an
    rope = cx.v(0)
    c, ty = cx.gt(0)
    t = strip(an, c, ty)
    txt = text_of(rope)
    key = '<%s as std::io::Write>::write' % t['s']
    b = an.nolt_bodies().get(nolt(key))
    if b is None:
        for k, x in an.prog.bodies.items():
            if k.startswith('<%s as ' % t['s']) and k.endswith('Write>::write'):
                b = x
    if b is None:
        v = cx.v(1)
        cx.set(1, cat(v, txt) if v.k in ('str', 'cat') else txt if v is NIL else call('written', v, txt))
        return ok(UNIT)
    # the text comes in pieces: written twice, it must come out whole
    v, cc = an.call_local(cx.F, b, [cx.args[1], call('chunk', txt, I(0))], cx.st, cx.cond, (cx.site, 'write', 0))
    v, cc = an.call_local(cx.F, b, [cx.args[1], call('chunk', txt, I(1))], cx.st, cc, (cx.site, 'write', 1))
    return ok(UNIT)


ROPE_LIMITS = {'byte_to_line': 'len_bytes', 'char_to_byte': 'len_chars', 'byte_to_char': 'len_bytes', 'char_to_line': 'len_chars',
               'line_to_byte': 'len_lines', 'line_to_char': 'len_lines', 'utf16_cu_to_char': 'len_utf16_cu', 'char_to_utf16_cu': 'len_chars'}


@model(*['%s::%s' % (t, m) for t in ('Rope', 'RopeSlice') for m in ROPE_LIMITS])
def m_ropeconv(cx):
    v, i = cx.v(0), cx.v(1)
    m = cx.n.rsplit('::', 1)[1]
    cx.emit(call(m, v, i))
    cx.panic(lt(call(ROPE_LIMITS[m], v), i), 'ropey:' + m, v, i)
    if i.k == 'int' and i.a[0] == 0:
        return I(0)
    return call(m, v, i)


@model(*['%s::%s' % (t, m) for t in ('Rope', 'RopeSlice') for m in ('len_bytes', 'len_chars', 'len_lines', 'len_utf16_cu')])
def m_ropelen(cx):
    return call(cx.n.rsplit('::', 1)[1], cx.v(0))


@model('Rope::line', 'RopeSlice::line', 'Rope::char', 'Rope::byte')
def m_ropeline(cx):
    v, i = cx.v(0), cx.v(1)
    m = cx.n.rsplit('::', 1)[1]
    cx.panic(NOT(lt(i, call('len_%ss' % m, v))), 'ropey:' + m, v, i)
    return call('rope_' + m, v, i)


@model('Rope::get_line', 'RopeSlice::get_line')
def m_ropegetline(cx):
    v, i = cx.v(0), cx.v(1)
    l = lt(i, call('len_lines', v))
    return gv([(l, some(call('rope_line', v, i))), (NOT(l), NONE)])


@model('Rope::slice', 'RopeSlice::slice', 'Rope::byte_slice', 'RopeSlice::byte_slice')
def m_ropeslice(cx):
    v, i = cx.v(0), cx.v(1)
    byte = 'byte' in cx.n.rsplit('::', 1)[1]
    cx.panic(range_bad(v, i, call('len_bytes' if byte else 'len_chars', v), byte), 'ropey:slice', v, i)
    return call('rope_' + cx.n.rsplit('::', 1)[1], v, i)


@model('Rope::get_slice', 'RopeSlice::get_slice', 'Rope::get_byte_slice')
def m_ropegetslice(cx):
    v, i = cx.v(0), cx.v(1)
    return call('rope_' + cx.n.rsplit('::', 1)[1], v, i)


@model('Rope::remove', 'Rope::insert', 'Rope::insert_char', 'Rope::try_remove', 'Rope::try_insert')
def m_ropeedit(cx):
    v = cx.v(0)
    a = [cx.v(i) for i in range(1, len(cx.args))]
    m = cx.n.rsplit('::', 1)[1].replace('try_', '').replace('_char', '')
    if m == 'remove':
        r = a[0]
        cx.panic(range_bad(v, r, call('len_chars', v)), 'ropey:remove', v, r)
    else:
        cx.panic(lt(call('len_chars', v), a[0]), 'ropey:insert', v, a[0])
    cx.emit(UNIT)
    cx.set(0, call('rope_' + m, v, *a))
    return UNIT if 'try_' not in cx.n else ok(UNIT)


@model('Parser::new')
def m_parser(cx):
    return call('parser', NONE)


@model('Parser::set_language')
def m_set_language(cx):
    l = cx.v(1)
    r = call('set_language', l)
    cx.emit(r)
    cx.set(0, call('parser', l))
    return r


@model('Parser::parse')
def m_parse(cx):
    r = call('parse', cx.v(0), cx.v(1), cx.v(2))
    cx.emit(r)
    return r


@model('Tree::edit')
def m_tree_edit(cx):
    cx.emit(UNIT)
    cx.set(0, call('edited', cx.v(0), cx.v(1)))
    return UNIT


@model('QueryCursor::matches', 'QueryCursor::captures')
def m_matches(cx):
    r = call(cx.n.rsplit('::', 1)[1], *[cx.v(i) for i in range(1, len(cx.args))])
    cx.emit(r)
    return mk('it', r, 0)


@model('QueryCursor::new')
def m_cursor(cx):
    return call('cursor')


@model('Point::new')
def m_point(cx):
    return agg('pos', 0, cx.v(0), cx.v(1))


@model('Position::new')
def m_position(cx):
    return agg('pos', 0, cx.v(0), cx.v(1))


@model('Range::new')
def m_range(cx):
    return agg('rng', 0, cx.v(0), cx.v(1))


def ctor(p, *order):
    def f(cx):
        n = tm.NF.get((p, 0))
        return agg(p, 0, *[cx.args[i] for i in range(len(cx.args))])
    return f


TABLE['Location::new'] = ctor('lsp_types::Location')
TABLE['TextDocumentIdentifier::new'] = ctor('lsp_types::TextDocumentIdentifier')
TABLE['TextDocumentItem::new'] = ctor('lsp_types::TextDocumentItem')
TABLE['TextDocumentPositionParams::new'] = ctor('lsp_types::TextDocumentPositionParams')


TABLE['TextEdit::new'] = ctor('lsp_types::TextEdit')


def sparse(p, names):
    """a constructor that leaves every other (optional) field empty"""
    def f(cx):
        given = dict(zip(names, cx.args))
        return agg(p, 0, *[given.get(n, NONE) for n in tm.FN[p][0]])
    return f


TABLE['Diagnostic::new'] = sparse('lsp_types::Diagnostic', ('range', 'severity', 'code', 'source', 'message', 'related_information', 'tags'))
TABLE['Diagnostic::new_simple'] = sparse('lsp_types::Diagnostic', ('range', 'message'))


@model('CompletionItem::new_simple')
def m_simple_item(cx):
    p = 'lsp_types::completion::CompletionItem'
    p = p if p in tm.FN else 'lsp_types::CompletionItem'
    given = {'label': cx.args[0], 'detail': tm.some(cx.args[1])}
    return agg(p, 0, *[given.get(n, NONE) for n in tm.FN[p][0]])


@model('Command::new')
def m_command(cx):
    # (title, command, arguments)
    return agg('lsp_types::Command', 0, cx.args[0], cx.args[1], cx.args[2])


@model('Node::start_position', 'Node::end_position', 'Node::id', 'Node::kind', 'Node::parent', 'Node::start_byte', 'Node::end_byte', 'Tree::root_node',
       'Node::is_error', 'Node::is_missing', 'Node::has_error', 'Node::child', 'Node::walk', 'TreeCursor::node', 'Node::is_named', 'Node::range', 'Query::capture_names',
       'Node::next_sibling', 'Node::prev_sibling', 'Node::child_count', 'Node::named_child', 'Node::kind_id', 'Node::byte_range', 'Node::descendant_for_point_range',
       'TreeCursor::field_name')
def m_node(cx):
    return call(facts.short(cx.n), *[cx.v(i) for i in range(len(cx.args))])


@model('Node::utf8_text')
def m_utf8_text(cx):
    r = call('node_text', cx.v(0), cx.v(1))
    # the node's bytes must lie within the text
    c = AND(cx.cond, atom(mk('bool', call('other_text', cx.v(0), cx.v(1)))))
    cx.an.emit(cx.F, 'panic', 'utf8_text', (cx.v(0), cx.v(1)), (), UNIT, c, cx.span, cx.gens)
    bad = atom(mk('bool', call('bad_node_text', cx.v(0), cx.v(1))))
    return gv([(NOT(bad), ok(r)), (bad, err(call('utf8_error', r)))])


@model('Query::new')
def m_query(cx):
    r = call('query', cx.v(0), cx.v(1))
    cx.emit(r)
    q = cx.v(1)
    if q.k == 'str':
        # constant source text: the statically checked queries
        return gv([(NOT(atom(mk('bool', call('bad_query', cx.v(0), q)))), ok(r)), (atom(mk('bool', call('bad_query', cx.v(0), q))), err(call('query_error', r)))])
    return call('query_result', r)


@model('Error::kind')
def m_errkind(cx):
    return call('kind', cx.v(0))


# ------------------------------------------------------------------ panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::panic_explicit', 'panicking::panic_display', 'panicking::unreachable_display', 'panicking::panic_str_2015',
       'panicking::panic_str', 'rt::begin_panic', 'panicking::panic_const', 'option::expect_failed', 'option::unwrap_failed', 'result::unwrap_failed', 'panicking::assert_failed',
       'process::exit', 'process::abort', 'panicking::panic_nounwind', 'rt::panic_fmt', 'panicking::unreachable', 'intrinsics::abort')
def m_panic(cx):
    cx.an.emit(cx.F, 'panic', facts.short(cx.n), tuple(cx.v(i) for i in range(len(cx.args))), (), UNIT, cx.cond, cx.span)
    return UNDEF


# ------------------------------------------------------------------ dispatch
SILENT = ('core::', 'alloc::', 'std::path', 'std::ffi', 'std::collections', 'lsp_types::', 'log::', 'env_logger')


def lookup(n):
    s = facts.short(n)
    f = TABLE.get(s)
    if f is not None:
        return f
    if n.startswith('<'):
        # <X as a::b::Trait>::m
        i = n.rfind('>::')
        if i >= 0:
            tr = n[:i]
            j = tr.rfind(' as ')
            if j >= 0:
                trait = tr[j + 4:].split('<')[0].split('::')[-1]
                f = TABLE.get(trait + n[i + 1:])
                if f is not None:
                    return f
    return None


def external(an, F, n, p, r, gens, args, st, cond, site, span, t):
    cx = Cx(an, F, n, p, r, gens, args, st, cond, site, span, t)
    f = lookup(n)
    if f is None and n == 'core::panicking::panic':
        f = m_panic
    if f is not None:
        v = f(cx)
        return v, cx.cond
    return unknown(cx), cx.cond


# functions that panic on some arguments, or in some states, that are not modelled further
PANICKY = {'split_at', 'split_at_mut', 'swap', 'chunks', 'chunks_mut', 'chunks_exact', 'rchunks', 'windows', 'copy_from_slice', 'clone_from_slice',
           'copy_within', 'split_off', 'extend_from_within', 'splice', 'insert', 'insert_str', 'remove', 'drain', 'replace_range', 'truncate',
           'select_nth_unstable', 'borrow_mut', 'block_on', 'blocking_recv', 'blocking_send', 'blocking_lock', 'blocking_read', 'blocking_write',
           'pow', 'ilog2', 'ilog10', 'ilog', 'div_euclid', 'rem_euclid', 'next_power_of_two', 'isqrt', 'abs_diff_', 'from_digit', 'to_digit',
           'from_secs_f64', 'from_secs_f32', 'interval', 'interval_at', 'from_str_radix', 'swap_remove', 'range', 'spawn_local', 'current',
           'unwrap_unchecked', 'get_unchecked', 'unreachable_unchecked', 'block_in_place', 'index', 'index_mut', 'advance_by', 'copy_to_slice',
           'rotate_left', 'rotate_right', 'resume_unwind', 'panic_any', 'exit', 'abort', 'expect', 'unwrap', 'unwrap_err', 'expect_err',
           'append_', 'char_boundary', 'line_to_char', 'char_to_line', 'byte_to_char', 'assume_init'}
PANICKY_AS = ('Duration', 'Instant', 'SystemTime')
NOPANIC = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'hash_map', 'hash_set', 'btree_map', 'JoinHandle', 'AbortHandle', 'DashMap', 'OptionExt', 'IndexMap', 'Value', 'Map', 'mem', 'Cell', 'Command')


def opaque(cx):
    return atom(mk('bool', call('bad:' + facts.short(cx.n), *[cx.v(i) for i in range(len(cx.args))])))


def panicky(n):
    s = n.split('::')
    m = s[-1]
    if n.startswith('<'):
        # operators of times and durations
        i, j = n.find(' as '), n.rfind('>::')
        ty = n[1:i].split('<')[0].split('::')[-1]
        tr = n[i + 4:j].split('<')[0].split('::')[-1]
        if ty in PANICKY_AS and tr in ('Add', 'Sub', 'Mul', 'Div', 'AddAssign', 'SubAssign', 'MulAssign', 'DivAssign'):
            return True
        return tr in ('Index', 'IndexMut') and not any(x == ty for x in ('Value', 'Map')) and m in ('index', 'index_mut')
    if m in PANICKY:
        return len(s) < 2 or s[-2] not in NOPANIC
    return False


def unknown(cx):
    an = cx.an
    s = facts.short(cx.n)
    if panicky(cx.n):
        cx.panic(opaque(cx), s)
    an.unknown[cx.n] = an.unknown.get(cx.n, 0) + 1
    vals = [cx.v(i) for i in range(len(cx.args))]
    r = call(s, *vals)
    # a constructor of an enum variant used as a function
    if cx.t is not None and 'panick' in cx.n:
        return m_panic(cx)
    ctor_ = an.ctor_of(cx.p)
    if ctor_ is not None:
        return agg(ctor_[0], ctor_[1], *cx.args)
    if not cx.n.startswith(SILENT):
        cx.emit(r)
    else:
        cx.an.emit(cx.F, 'call', cx.n, tuple(vals), tuple(cx.args), r, cx.cond, cx.span, cx.gens)
    for i, a in enumerate(cx.args):
        if an.targets(a) is not None:
            an.store(cx.st, a, call('mut', S(s), I(i), *vals))
    # closures handed to unknown code may be called
    for i, a in enumerate(vals):
        if a.k == 'agg':
            b = cx.F.crate.bodies.get(a.a[0]) or an.prog.bodies.get(a.a[0])
            if b is not None and b['kind'] == 'closure':
                xs = [call('arg_of', r, I(j)) for j in range(b['argc'] - 1)]
                s2 = dict(cx.st)
                an.callv(cx.F, a, xs, s2, cx.cond, (cx.site, 'unk', i))
                c, m = an.merge([(AND(cx.cond, atom(mk('bool', call('called', r, I(i))))), s2), (AND(cx.cond, NOT(atom(mk('bool', call('called', r, I(i)))))), dict(cx.st))])
                cx.st.clear()
                cx.st.update(m)
    return r
