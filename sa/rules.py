"""What the rules share: specialising terms, the worker seen per message kind, results of a check."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
import program
import terms as tm
from bdd import TRUE, FALSE, AND, OR, NOT, ATOMS, atom, sup, mapatoms, all_of, any_of
import bdd

OPT, RES = tm.OPT, tm.RES


# ---------------------------------------------------------------- terms under assumptions
def assume(x, lits, memo=None):
    """x with the atoms (terms) in lits replaced by their truth value, everywhere inside x"""
    if memo is None:
        memo = {}
    keys = frozenset(lits)

    def on(y):
        if isinstance(y, tm.T):
            r = memo.get(y)
            if r is None:
                r = memo[y] = tm.rebuild(y, on) if y.a else y
            return r
        if isinstance(y, bdd.N):
            if y is TRUE or y is FALSE:
                return y
            k = ('n', y.id)
            r = memo.get(k)
            if r is None:
                r = memo[k] = mapatoms(y, at)
            return r
        if isinstance(y, tuple):
            return tuple(on(z) for z in y)
        return y

    def at(i):
        t = ATOMS[i]
        if t in keys:
            return TRUE if lits[t] else FALSE
        k = ('a', i)
        r = memo.get(k)
        if r is None:
            r = memo[k] = tm.reatom(t, on)
            if r.v >= 0 and r.lo is FALSE and r.hi is TRUE and ATOMS[r.v] in keys:
                r = memo[k] = TRUE if lits[ATOMS[r.v]] else FALSE
        return r
    return on(x)


def rewrite(x, m, memo=None, post=None):
    """x with the terms in m replaced, everywhere inside x"""
    if memo is None:
        memo = {}

    def on(y):
        if isinstance(y, tm.T):
            if y in m:
                return m[y]
            r = memo.get(y)
            if r is None:
                r = tm.rebuild(y, on) if y.a else y
                r = memo[y] = post(r) if post else r
            return r
        if isinstance(y, bdd.N):
            if y is TRUE or y is FALSE:
                return y
            k = ('n', y.id)
            r = memo.get(k)
            if r is None:
                r = memo[k] = mapatoms(y, at)
            return r
        if isinstance(y, tuple):
            return tuple(on(z) for z in y)
        return y

    def at(i):
        t = ATOMS[i]
        if t in m:
            return tm.nb(m[t])
        k = ('a', i)
        r = memo.get(k)
        if r is None:
            r = memo[k] = tm.reatom(t, on)
        return r
    return on(x)


def literals(f):
    """atoms with the value they must have when f holds"""
    out = {}
    for i in sup(f):
        if AND(f, atom(ATOMS[i])) is FALSE:
            out[ATOMS[i]] = False
        elif AND(f, NOT(atom(ATOMS[i]))) is FALSE:
            out[ATOMS[i]] = True
    return out


def expand(f, depth=0):
    """f with abbreviations opened (may be large)"""
    def at(i):
        t = ATOMS[i]
        if t.k == 'abbr':
            return expand(t.a[0], depth + 1)
        return atom(t)
    return mapatoms(f, at)


def variant_lits(t, owner, name):
    """literals saying that t is the named variant"""
    vn = tm.VN[owner]
    j = vn.index(name)
    n = len(vn)
    if n == 2:
        return {tm.mk('isv', t, 1): j == 1}
    out = {}
    for i in range(n - 1):
        out[tm.mk('isv', t, i)] = i == j
    return out


def short(k):
    return k.split('::')[-1] if k else k


def fname(adt, f, vi=0):
    """index of the named field"""
    return tm.FN[adt][vi].index(f)


def fields_of(t, adt, vi=0):
    return {n: tm.field(t, adt, vi, i) for i, n in enumerate(tm.FN[adt][vi])}


class Missing(Exception):
    """an anchor the rules rely on isn't there"""


# ---------------------------------------------------------------- the language server
class Server(object):
    def __init__(self):
        self.prog = facts.server()
        self.a = program.server(prog=self.prog)
        a = self.a
        self.events = a.events
        # message enum and the queue handlers put it on
        self.msg_adt = self.adt('LspMessage')
        self.diag_adt = self.adt('DiagnosticMessage')
        self.files_adt = self.adt('LspFiles')
        self.cfg_adt = self.adt('JinjaConfig')
        self.ident_adt = self.adt('Identifier')
        self.idtype_adt = self.adt('IdentifierType')
        self.jdiag_adt = self.adt('JinjaDiagnostic')
        self.lang_adt = self.adt('LangType')
        self.ctype_adt = self.adt('CompletionType')
        self.variants = tm.VN[self.msg_adt]
        self.F = tm.FN[self.files_adt][0]

    def adt(self, name):
        c = [p for p in self.prog.adts if p.split('::')[-1] == name and p.split('::')[0] in ('jinja_lsp', 'jinja_lsp_queries')]
        if len(c) != 1:
            raise Missing('type %s' % name)
        return c[0]

    # ---- queues
    def main_chans(self):
        """channels the handlers send messages on"""
        out = []
        for e in self.events:
            if e.ctx[0][0] == 'handler' and is_send(e):
                ch = chan_of(e.args[0])
                if ch is not None and ch not in out:
                    out.append(ch)
        return out

    @property
    def main(self):
        if not hasattr(self, '_main'):
            c = [x for x in self.main_chans() if x.a[1] is not tm.sym('oneshot')]
            if len(c) != 1:
                raise Missing('one queue used by the request handlers')
            self._main = c[0]
        return self._main

    def receivers(self, chan):
        return [e for e in self.events if e.kind == 'call' and e.name.endswith('::recv') and e.args and rx_of(e.args[0]) is chan]

    @property
    def worker(self):
        """(ctx, received option term, message term)"""
        if not hasattr(self, '_worker'):
            r = self.receivers(self.main)
            if len(r) != 1:
                raise Missing('one receiver of the main queue, found %d' % len(r))
            self._worker = r[0].ctx, awaited(self, r[0]), r[0]
        return self._worker

    @property
    def wctx(self):
        return self.worker[0]

    @property
    def recv(self):
        return self.worker[1]

    @property
    def msg(self):
        return tm.payload(self.recv)

    def diag_chan(self):
        c = []
        for e in self.events:
            if is_send(e) and e.ctx[:len(self.wctx)] == self.wctx:
                v = e.args[1]
                ch = chan_of(e.args[0])
                if ch is not None and ch is not self.main and ch.a[1] is not tm.sym('oneshot') and ch not in c:
                    c.append(ch)
        if len(c) != 1:
            raise Missing('one queue from the worker to the diagnostics task, found %d' % len(c))
        return c[0]

    @property
    def diag(self):
        if not hasattr(self, '_diag'):
            ch = self.diag_chan()
            r = self.receivers(ch)
            if len(r) != 1:
                raise Missing('one receiver of the diagnostics queue, found %d' % len(r))
            self._diag = ch, r[0].ctx, awaited(self, r[0])
        return self._diag

    # ---- per message
    @property
    def base(self):
        """what holds once the server serves"""
        if not hasattr(self, '_base'):
            self._base = literals(self.worker[2].cond)
        return self._base

    def lits(self, variant):
        d = dict(self.base)
        d[tm.mk('isv', self.recv, 1)] = True
        d.update(variant_lits(self.msg, self.msg_adt, variant))
        return d

    def tasks(self):
        out = {}
        for t in self.a.tasks:
            out[t[0]] = t
        return out

    def case(self, variant):
        c = self.__dict__.setdefault('_cases', {})
        if variant not in c:
            c[variant] = Case(self, variant)
        return c[variant]

    def mfield(self, variant, i):
        return tm.field(self.msg, self.msg_adt, self.variants.index(variant), i)

    # ---- worker state
    @property
    def state(self):
        """{path: (lv, init, step)} of the worker's main loop"""
        if not hasattr(self, '_state'):
            # the loop that contains the receive: the lvs read under the messages
            uids = {}
            for lv, (init, step, bs) in self.a.lvinfo.items():
                uids.setdefault((lv.a[0], lv.a[1][0]), []).append(lv)
            self._uids = uids
            best = None
            for e in self.receivers(self.main):
                for b, uid in e.loops:
                    best = uid
            self._state = {}
            if best is None:
                raise Missing('the message loop of the worker')
            for lv, (init, step, bs) in self.a.lvinfo.items():
                if lv.a[0] == best:
                    self._state[lv.a[1:]] = (lv, init, step)
        return self._state

    @property
    def names(self):
        """readable names: the carried state of the worker and the parts of the message"""
        if not hasattr(self, '_names'):
            m = {}
            for (root, path), (lv, init, step) in self.state.items():
                nm = 'W'
                for st in path[1:] if path and path[0][0] == 'f' and '{closure' in str(path[0][1]) else path:
                    nm += '.' + (tm.FN[st[1]][st[2]][st[3]] if st[0] == 'f' and st[1] in tm.FN else str(st[-1]))
                if nm == 'W':
                    nm = 'W.%s' % (path[0][3] if path else root[1],)
                m[lv] = tm.sym(nm)
            self._names = m
        return self._names

    def store(self, name):
        """the loop carried value of a field of the worker's file store"""
        i = self.F.index(name)
        out = [(lv, init, step) for (root, path), (lv, init, step) in self.state.items()
               if path and path[-1][0] == 'f' and path[-1][1] == self.files_adt and path[-1][3] == i]
        if len(out) != 1:
            return None
        return out[0]


class CE(object):
    """an event specialised to a message kind"""
    __slots__ = ('e', 'name', 'args', 'res', 'cond', 'ctx', 'loops', 'kind', 'extra')

    def __init__(self, e, args, res, cond):
        self.e = e
        self.kind = e.kind
        self.name = e.name
        self.args = args
        self.res = res
        self.cond = cond
        self.ctx = e.ctx
        self.loops = e.loops
        self.extra = e.extra

    def fn(self):
        return self.e.fn()

    @property
    def span(self):
        return self.e.span


class Case(object):
    def __init__(self, S, variant):
        self.S = S
        self.variant = variant
        self.lits = S.lits(variant)
        self.memo = {}
        self.events = []
        w = S.wctx
        for e in S.events:
            if e.ctx[:len(w)] == w:
                c = self.on(e.cond)
                if c is FALSE:
                    continue
                self.events.append(CE(e, tuple(self.on(a) for a in e.args if isinstance(a, tm.T)), self.on(e.res) if isinstance(e.res, tm.T) else e.res, c))
        self.own = [e for e in self.events if e.ctx == w]

    def on(self, x):
        return assume(x, self.lits, self.memo)

    def nice(self, x):
        """with readable names"""
        m = dict(self.S.names)
        v = self.S.variants.index(self.variant)
        for i in range(tm.NF.get((self.S.msg_adt, v), 0)):
            m[tm.field(self.S.msg, self.S.msg_adt, v, i)] = tm.sym('msg%d' % i if i else 'msg')
        return rewrite(x, m, self.__dict__.setdefault('nmemo', {}))

    def param(self, i=0):
        return self.S.mfield(self.variant, i)

    def after(self, name):
        """the value of a store after handling the message, or None if it isn't carried (unchanged)"""
        s = self.S.store(name)
        if s is None:
            return None
        return self.on(s[2])

    def before(self, name):
        s = self.S.store(name)
        return s[0] if s else None


def is_send(e):
    return e.kind == 'call' and e.name.startswith('tokio::sync::') and e.name.split('::')[-1] in ('send', 'try_send', 'blocking_send', 'send_timeout')


def chan_of(t):
    if t.k == 'call' and t.a[0] in ('tx', 'otx'):
        return t.a[1]
    return None


def rx_of(t):
    if t.k == 'call' and t.a[0] in ('rx', 'orx'):
        return t.a[1]
    return None


def awaited(S, e):
    """the value an awaited call yields"""
    return tm.call('await', e.res)


# ---------------------------------------------------------------- scenarios
def assume_by(x, f, memo=None, post=None):
    """x with every atom for which f says True or False replaced by that value"""
    if memo is None:
        memo = {}

    def on(y):
        if isinstance(y, tm.T):
            r = memo.get(y)
            if r is None:
                r = tm.rebuild(y, on) if y.a else y
                r = memo[y] = post(r) if post else r
            return r
        if isinstance(y, bdd.N):
            if y is TRUE or y is FALSE:
                return y
            k = ('n', y.id)
            r = memo.get(k)
            if r is None:
                r = memo[k] = mapatoms(y, at)
            return r
        if isinstance(y, tuple):
            return tuple(on(z) for z in y)
        return y

    def val(t):
        v = f(t)
        return None if v is None else TRUE if v else FALSE

    def at(i):
        t = ATOMS[i]
        k = ('a', i)
        r = memo.get(k)
        if r is None:
            r = val(t)
            if r is None:
                r = tm.reatom(t, on)
                if r.v >= 0 and r.lo is FALSE and r.hi is TRUE:
                    v = val(ATOMS[r.v])
                    if v is not None:
                        r = v
            memo[k] = r
        return r
    return on(x)


def is_ext(t):
    return t.k == 'call' and t.a[0] in ('Path::extension',)


def of_ext(t):
    """t is the extension of some path (possibly unwrapped)"""
    if is_ext(t):
        return t
    if t.k == 'f' and tm.payload(t.a[0] if isinstance(t.a[0], tm.T) else t) is t and is_ext(t.a[0]):
        return t.a[0]
    return None


def ext_is(ext):
    """predicate for assume_by: every file has this extension (None: none at all)"""
    def f(t):
        if t.k == 'isv' and is_ext(t.a[0]):
            return (ext is not None) if t.a[1] == 1 else (ext is None)
        if t.k == 'bool' and t.a[0].k == 'call' and t.a[0].a[0] == 'not_utf8' and tm.contains(t.a[0], is_ext):
            return False
        if t.k == 'eq':
            for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if a.k == 'str' and is_extval(b):
                    return a.a[0] == ext
        return None
    return f


def is_extval(t):
    return not is_ext(t) and t.k not in ('str', 'cat', 'gv') and any(isinstance(x, tm.T) and is_ext(x) for x in t.a)


def both(*fs):
    def f(t):
        for g in fs:
            v = g(t)
            if v is not None:
                return v
        return None
    return f


def parses(t):
    """parsing always yields a tree (no cancellation flag, no timeout, a language is set)"""
    if t.k == 'isv' and t.a[0].k == 'call' and t.a[0].a[0] == 'parse':
        return t.a[1] == 1
    return None


class Scene(object):
    """a message kind under further assumptions"""
    def __init__(self, case, f):
        self.case = case
        self.S = case.S
        self.f = f
        self.memo = {}
        self.events = []
        for e in case.events:
            c = self.on(e.cond)
            if c is FALSE:
                continue
            self.events.append(CE(e.e, tuple(self.on(a) for a in e.args), self.on(e.res) if isinstance(e.res, tm.T) else e.res, c))
        self.own = [e for e in self.events if e.ctx == case.S.wctx]

    def on(self, x):
        return assume_by(x, self.f, self.memo)

    def nice(self, x):
        return self.case.nice(x)

    def before(self, n):
        return self.case.before(n)

    def after(self, n):
        v = self.case.after(n)
        return None if v is None else self.on(v)

    def param(self, i=0):
        return self.case.param(i)


# ---------------------------------------------------------------- invariants of the worker's state
def one_of_enum(S, t, adt):
    return t.k == 'agg' and t.a[0] == adt


def trees_have(S, t):
    """atom: get(trees, language) is there, for the worker's own map or a fresh scan's (shown by trees_invariant)"""
    if t.k == 'isv' and t.a[0].k == 'get' and is_treemap(S, t.a[0].a[0]):
        return t.a[1] == 1
    return None


def is_treemap(S, m):
    """the map from languages to trees"""
    i = S.F.index('trees')
    if m.k == 'lv':
        p = m.a[2]
        return bool(p) and p[-1][0] == 'f' and p[-1][1] == S.files_adt and p[-1][3] == i
    if m.k == 'put':
        return m.a[1].k in ('agg', 'gv') and is_treemap(S, m.a[0])
    if m.k == 'mfor':
        return is_treemap(S, m.a[1])
    if m.k == 'last':
        return is_treemap(S, m.a[2])
    if m.k == 'gv':
        return all(is_treemap(S, v) for g, v in m.a)
    return False


def langs_of(S, m, seen=None):
    """languages the map certainly has an entry for; None: any"""
    if seen is None:
        seen = set()
    if m.k == 'lv' and m in S.a.lvinfo:
        if m in seen:
            return None
        seen = seen | {m}
        init, step, bs = S.a.lvinfo[m]
        a, b = langs_of(S, init, seen), langs_of(S, step, seen)
        return b if a is None else a if b is None else a & b
    if m.k == 'put':
        r = langs_of(S, m.a[0], seen)
        if r is None:
            return None
        k = m.a[1]
        return r | {k.a[1]} if k.k == 'agg' and k.a[0] == S.lang_adt else r
    if m.k == 'mfor':
        return langs_of(S, m.a[1], seen)
    if m.k == 'last':
        return langs_of(S, m.a[2], seen)
    if m.k == 'gv':
        r = None
        for g, v in m.a:
            x = langs_of(S, v, seen)
            if x is not None:
                r = x if r is None else r & x
        return r
    if m.k == 'undef':
        return None
    return frozenset()


def trees_invariant(k, S):
    """the tree store has an entry for every language, always"""
    lv, init, step = S.store('trees')
    n = len(tm.VN[S.lang_adt])
    have = langs_of(S, lv)
    return k.ob('invariant:trees', have is not None and len(have) == n, 'the tree store always has an entry for every language', S.files_adt,
                'certain entries: %s' % (sorted(tm.VN[S.lang_adt][i] for i in have or ())))


def flat(t, n=400):
    try:
        s = tm.show(t, 7)
    except Exception:
        s = str(t)
    return s[:n]


def sel(t, *steps):
    """field of a struct by (type's last name, field)"""
    for ty, f in steps:
        c = [p for p in tm.FN if p.split('::')[-1] == ty and f in tm.FN[p][0]]
        if not c:
            raise Missing('%s.%s' % (ty, f))
        t = tm.field(t, c[0], 0, tm.FN[c[0]][0].index(f))
    return t


def doc_known(S, case):
    """atoms: the document of the message is stored (its text and, by the same steps, its tree)"""
    def f(t):
        if t.k == 'isv' and t.a[0].k == 'get':
            m = t.a[0].a[0]
            if m.k == 'lv' and S.store_of(m) == 'documents':
                return t.a[1] == 1
            if m.k == 'f' and m is tm.payload(m.a[0]) and m.a[0].k == 'get' and is_treemap(S, m.a[0].a[0]):
                return t.a[1] == 1
        return None
    return f


def _store_of(self, m):
    """name of the store a carried value is"""
    if m.k == 'lv' and m.a[2] and m.a[2][-1][0] == 'f' and m.a[2][-1][1] == self.files_adt:
        return self.F[m.a[2][-1][3]]
    return None


def _scene(self, variant, ext, known=False, *preds):
    key = (variant, ext, known) + tuple(id(p) for p in preds)
    c = self.__dict__.setdefault('_scenes', {})
    if key not in c:
        case = self.case(variant)
        ps = [ext_is(ext), parses, lambda t: trees_have(self, t)]
        if known:
            ps.append(doc_known(self, case))
        c[key] = Scene(case, both(*(ps + list(preds))))
    return c[key]


Server.store_of = _store_of
Server.scene = _scene

EXTS = {'html': 'Template', 'jinja': 'Template', 'j2': 'Template', 'rs': 'Backend', 'py': 'Backend'}


def same(a, b):
    """the same value, booleans compared as formulas"""
    if a is b:
        return True
    if isinstance(a, tm.T) and isinstance(b, tm.T) and (tm.isbool(a) or tm.isbool(b)):
        return tm.nb(a) is tm.nb(b)
    return False


def of_store(S, t, names):
    return S.store_of(t) in names


def nolv(S, t):
    """loops of the worker's own code inside a value"""
    return [x for x in tm.subterms(t) if x.k == 'lv' and x in S.a.lvinfo and S.state and x.a[1:] not in S.state]


def through(S, *xs):
    """every subterm of the values, also of the loops they come from (but not of the worker's state before the message)"""
    seen, todo, out = set(), list(xs), set()
    while todo:
        y = todo.pop()
        if not isinstance(y, tm.T):
            continue
        for z in tm.subterms(y, out):
            if z.k == 'lv' and z in S.a.lvinfo and z not in seen:
                seen.add(z)
                if z.a[1:] in S.state and S.state[z.a[1:]][0] is z:
                    continue
                init, step, bs = S.a.lvinfo[z]
                todo += [init, step] + list(bs)
    return {t for t in out if isinstance(t, tm.T)}


def uses(S, x, t):
    """the value depends on t, directly or through the loops that make it"""
    return t in through(S, x)


def chan_is(S, t, chan):
    """the sender puts on this queue, wherever it was kept"""
    if chan_of(t) is chan:
        return True
    return False


def comp(t):
    """(binders, condition, value) when the sequence is made of one value per element of another one"""
    if t.k == 'seq':
        if len(t.a) == 1 and t.a[0][0] == 'for':
            return t.a[0][1:]
        return None
    if t.k in ('gv', 'undef'):
        return None
    e = tm.mk('elem', t, '#1')
    return ((e,), TRUE, e)


# ---------------------------------------------------------------- answers
def aggs(t, name):
    """every value of the named type made inside t"""
    return [x for x in tm.subterms(t) if x.k == 'agg' and x.a[0].split('::')[-1] == name]


def replies(S, s):
    """[(condition, answer)] given to the request of the scene"""
    out = []
    for e in s.events:
        if is_send(e) and any(e.args[0] is s.param(i) for i in range(1, 3)):
            out.append((e.cond, e.args[1]))
    return out


def elements(S, t, cond=TRUE, bs=(), on=None, skip=()):
    """(binders, condition, value) of everything a sequence holds, in order; sequences collected by a loop are opened"""
    if t.k == 'gv':
        for g, x in t.a:
            c = AND(cond, g)
            if c is not FALSE:
                for r in elements(S, x, c, bs, on, skip):
                    yield r
    elif t.k == 'seq':
        for p in t.a:
            if p[0] == 'one':
                yield bs, AND(cond, p[1]), p[2]
            elif p[0] == 'for' and len(p[1]) == 1 and made(S, p[1][0].a[0]):
                # made from the elements of a sequence which a loop collected
                b = p[1][0]
                for bs2, c, y in elements(S, b.a[0], TRUE, bs, on, skip):
                    m = {b: y}
                    g = AND(AND(cond, c), tm.subst(p[2], m))
                    if g is not FALSE:
                        yield bs2, g, tm.subst(p[3], m)
            elif p[0] == 'for':
                yield bs + tuple(p[1]), AND(cond, p[2]), p[3]
            else:
                for r in elements(S, p[1], cond, bs, on, skip):
                    yield r
    elif t.k == 'undef' or t in skip:
        return
    elif t.k == 'lv' and t in S.a.lvinfo and t.a[1:] not in S.state:
        init, step, b = S.a.lvinfo[t]
        if on is not None:
            init, step = on(init), on(step)
        for r in elements(S, init, cond, bs, on, skip):
            yield r
        for r in elements(S, step, cond, bs + tuple(b), on, tuple(skip) + (t,)):
            yield r
    else:
        e = tm.mk('elem', t, '#1')
        yield bs + (e,), cond, e


def made(S, t):
    return t.k == 'lv' and t in S.a.lvinfo and t.a[1:] not in S.state or t.k == 'gv' and any(made(S, x) for g, x in t.a)


def by_kind(S, x, subject, adt, cond=TRUE):
    """{variant: value of x when subject is of that kind}, for the kinds cond allows"""
    out = {}
    for v in tm.VN[adt]:
        l = variant_lits(subject, adt, v)
        memo = {}
        if cond is not TRUE and assume(cond, l, memo) is FALSE:
            continue
        out[v] = assume(x, l, memo)
    return out


def variants(t, name, cond=TRUE):
    """(condition, value) of every value of the named type among the cases of t"""
    if t.k == 'gv':
        for g, x in t.a:
            c = AND(cond, g)
            if c is not FALSE:
                for r in variants(x, name, c):
                    yield r
    elif t.k == 'agg':
        if t.a[0].split('::')[-1] == name:
            yield cond, t
        else:
            for x in t.a[2:]:
                if isinstance(x, tm.T):
                    for r in variants(x, name, cond):
                        yield r


def pruned(t, cond):
    """[(condition, value)] of the cases of t possible under cond; cases inside newtypes are opened"""
    if t.k == 'gv':
        return [r for g, x in t.a if AND(cond, g) is not FALSE for r in pruned(x, AND(cond, g))]
    if t.k == 'agg' and len(t.a) == 3:
        return [(g, tm.mk('agg', t.a[0], t.a[1], x)) for g, x in pruned(t.a[2], cond)]
    return [(cond, t)]


def contexts(S, s, name='CompletionType'):
    """{kind: [(condition, context value)]}: the contexts the cursor of the request is found to be in"""
    c = [e for e in s.own if e.kind == 'local' and isinstance(e.res, tm.T) and any(True for _ in variants(e.res, name))]
    c = [e for e in c if all(AND(e2.cond, NOT(e.cond)) is FALSE for e2 in c)]
    if not c:
        raise Missing('the function that finds the context of the cursor')
    best = c[-1]
    out = {}
    adt = S.adt(name)
    for g, v in variants(best.res, name, best.cond):
        out.setdefault(tm.VN[adt][v.a[1]], []).append((g, v))
    return out, best


def deep(t, cond):
    """t with every alternative that cond excludes removed, everywhere inside"""
    memo = {}

    def on(y):
        if isinstance(y, tm.T):
            r = memo.get(y)
            if r is None:
                if y.k == 'gv':
                    alts = [(AND(cond, g), g, x) for g, x in y.a]
                    alts = [(g, x) for c, g, x in alts if c is not FALSE]
                    if len(alts) == 1:
                        r = on(alts[0][1])
                    else:
                        r = tm.gv([(g, on(x)) for g, x in alts])
                else:
                    r = tm.rebuild(y, on) if y.a else y
                memo[y] = r
            return r
        if isinstance(y, tuple):
            return tuple(on(z) for z in y)
        return y
    return on(t)


def implies(g, f):
    """g implies f, by the diagrams alone or with the facts about comparisons"""
    if AND(g, NOT(f)) is FALSE:
        return True
    import arith
    of = bdd.sup(f)
    parts = set()
    for i in of:
        parts |= compared(ATOMS[i])
    # only comparisons of the same things can matter further
    drop = [i for i in bdd.sup(g) if i not in of and not (ATOMS[i].k in ('gt0', 'eq') and compared(ATOMS[i]) <= parts)]
    return arith.discharge(AND(bdd.forget(g, set(drop)), NOT(f)))


def compared(t):
    """the terms a comparison compares"""
    out = set()
    if t.k in ('gt0', 'eq'):
        for x in t.a:
            if isinstance(x, tm.T):
                out |= {y for y, _ in tm.lin_of(x)[1]}
    else:
        out.add(t)
    return out
