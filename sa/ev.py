"""Gated value-flow analysis over MIR.

Every function body is turned into guarded values: a local's value at a program
point is a term, a merge keeps the condition of each alternative, conditions are
decision diagrams, loops become comprehensions over the collection they walk.
Local functions, closures and awaited async blocks are analysed in the context of
their call.  The result is the list of calls to code outside the workspace (and
of possible panics), each with its arguments, the condition under which it is
reached and the collection elements it is repeated for.
"""
import re
import sys

import facts
import bdd
from bdd import TRUE, FALSE, AND, OR, NOT, atom, simp, any_of, sup, ATOMS, BIG
import terms as tm
from terms import (T, mk, sym, I, S, agg, some, ok, err, tup, call, B, TT, FF, nb, cases, gv, mapgv, field,
                   with_field, is_variant, is_some, payload, add, sub, lt, le, eq, empty, length, satsub, cat,
                   seq, NIL, ones, parts_of, push, append, literal, exists, mget, mput, mdel, subst, subterms,
                   NONE, UNIT, UNDEF, OPT, RES, POLL, CF, ORD)

RET = 'ret'
CANON = {
    'lsp_types::Position': 'pos', 'tree_sitter::Point': 'pos', 'jinja_lsp_nodejs::JsPosition': 'pos',
    'lsp_types::Range': 'rng', 'jinja_lsp_nodejs::JsRange': 'rng',
}
EMAP = mk('emap')


class Ev(object):
    """one call that leaves the workspace, or one possible panic"""
    __slots__ = ('kind', 'name', 'args', 'refs', 'res', 'cond', 'loops', 'stack', 'span', 'ctx', 'gen', 'extra')

    def __init__(self, kind, name, args, refs, res, cond, stack, span, ctx, gen=None, extra=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.refs = refs
        self.res = res
        self.cond = cond
        self.loops = ()
        self.stack = stack
        self.span = span
        self.ctx = ctx
        self.gen = gen
        self.extra = extra

    def fn(self):
        return self.stack[-1] if self.stack else '?'

    def __repr__(self):
        return '%s %s(%s) @%s in %s' % (self.kind, self.name, ', '.join(tm.show(a, 4) for a in self.args), self.span, self.fn())


class Frame(object):
    __slots__ = ('fid', 'body', 'crate', 'stack')

    def __init__(self, fid, body, stack):
        self.fid = fid
        self.body = body
        self.crate = body['crate']
        self.stack = stack


class CFG(object):
    """reachable (non cleanup) blocks in reverse post order, and natural loops"""

    def __init__(self, body):
        bl = body['blocks']
        self.succ = {}
        order = []
        seen = set()
        stack = [(0, None)]

        def succs(i):
            t = bl[i]['t']
            k = t['k']
            if k in ('goto', 'drop', 'assert', 'yield'):
                return [t['t']]
            if k == 'call':
                return [t['t']] if t['t'] >= 0 else []
            if k == 'switch':
                r = []
                for _, b in t['t']:
                    if b not in r:
                        r.append(b)
                if t['o'] not in r:
                    r.append(t['o'])
                return r
            return []
        # iterative dfs post order
        st = [(0, iter(succs(0)))]
        seen.add(0)
        self.succ[0] = succs(0)
        while st:
            n, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    self.succ[s] = succs(s)
                    st.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(n)
                st.pop()
        order.reverse()
        self.order = order
        self.pos = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        self.irreducible = False
        for b in order:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body_ = self.loops.setdefault(s, set([s]))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        work.extend(pred[x])


class Analysis(object):
    def __init__(self, prog, models):
        self.prog = prog
        self.models = models
        self.events = []
        self.leaves = {}
        self.cfgs = {}
        self.fids = {}
        self.ctx = ()         # spawn nesting
        self.unroll = ()
        self.lvinfo = {}
        self.notes = []
        self.visited = set()  # bodies analysed
        self.depth = 0
        self.unknown = {}
        self.steps = 0
        self.cut = {}         # bodies kept as opaque functions of their arguments
        self.backends = []
        self.tasks = []       # (context, value, condition of ending) of the spawned tasks
        for c in prog.crates:
            for p, a in c.adts.items():
                cp = self.canon(p)
                if cp in ('pos', 'rng'):
                    continue
                tm.NV[cp] = max(1, len(a['variants']))
                tm.VN[cp] = [v['n'] for v in a['variants']]
                tm.FN[cp] = [[f[0] for f in v['f']] for v in a['variants']]
                for i, v in enumerate(a['variants']):
                    tm.NF[(cp, i)] = len(v['f'])

    # ------------------------------------------------------------ helpers
    def nolt_bodies(self):
        """bodies by key without lifetimes"""
        c = getattr(self, '_nolt', None)
        if c is None:
            c = self._nolt = {}
            for k, b in self.prog.bodies.items():
                if k.startswith('<'):
                    c.setdefault(self.models.nolt(k), b)
        return c

    def ctor_of(self, p):
        """(adt, variant) of a tuple constructor path"""
        c = getattr(self, '_ctors', None)
        if c is None:
            c = self._ctors = {}
            for ap, a in self.prog.adts.items():
                if a['kind'] == 'enum' or len(a['variants']) > 1:
                    for i, v in enumerate(a['variants']):
                        c[ap + '::' + v['n']] = (self.canon(ap), i)
                else:
                    c[ap] = (self.canon(ap), 0)
        return c.get(facts.strip_generics(p))

    @staticmethod
    def canon(p):
        return CANON.get(p, p)

    def ty(self, F, i):
        return F.crate.types[i]

    def fid(self, *key):
        key = key + (self.unroll,)
        r = self.fids.get(key)
        if r is None:
            r = len(self.fids) + 1
            self.fids[key] = r
        return r

    def cfg(self, body):
        c = self.cfgs.get(body['key'])
        if c is None:
            c = CFG(body)
            self.cfgs[body['key']] = c
        return c

    def emit(self, F, kind, name, args, refs, res, cond, span, gen=None, extra=None):
        e = Ev(kind, name, args, refs, res, cond, F.stack, span, self.ctx, gen, extra)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ memory
    def proj(self, v, pe):
        k = pe[0]
        if k == 'f':
            return field(v, pe[1], pe[2], pe[3])
        if k == 'k':
            return payload(mget(v, pe[1]))
        if k == 'e':
            if v.k == 'gv':
                return gv([(g, self.proj(x, pe)) for g, x in v.a])
            r = v
            while r.k == 'call' and r.a[0] == 'upd_e':
                if r.a[2] is pe[1]:
                    return r.a[3]
                r = r.a[1]
            return pe[1]
        if k == 'last':
            return self.last_of(v)
        if k == 'first':
            if v.k == 'gv':
                return gv([(g, self.proj(x, pe)) for g, x in v.a])
            if v.k == 'seq' and v.a and v.a[0][0] == 'one' and v.a[0][1] is TRUE:
                return v.a[0][2]
            return call('first', v)
        if k == 'i':
            return self.index(v, pe[1])
        if k == 'ss':
            return call('subslice', v, I(pe[1]), I(pe[2]))
        raise AssertionError(pe)

    def last_of(self, v):
        if v.k == 'gv':
            return gv([(g, self.last_of(x)) for g, x in v.a])
        if v.k == 'seq' and v.a and v.a[-1][0] == 'one' and v.a[-1][1] is TRUE:
            return v.a[-1][2]
        if v.k == 'call' and v.a[0] == 'upd_last':
            return v.a[2]
        return call('last', v)

    def index(self, v, i):
        if v.k == 'gv':
            return gv([(g, self.index(x, i)) for g, x in v.a])
        l = literal(v)
        if l is not None and i.k == 'int' and i.a[0] < len(l):
            return l[i.a[0]]
        if i.k == 'call' and i.a[0] == 'index_of' and i.a[1].k == 'elem' and i.a[1].a[0] is v:
            return i.a[1]
        return call('at', v, i)

    def setp(self, v, path, new):
        if not path:
            return new
        pe = path[0]
        k = pe[0]
        if k == 'f':
            inner = self.setp(field(v, pe[1], pe[2], pe[3]), path[1:], new)
            if v.k == 'undef':
                n = tm.NF.get((pe[1], pe[2]))
                if pe[1] == '()' or n is None:
                    return mk('upd', v, (pe[1], pe[2], pe[3]), inner)
            return with_field(v, pe[1], pe[2], pe[3], inner)
        if k == 'k':
            if v.k == 'gv' and len(path) > 1:
                return gv([(g, self.setp(x, path, new)) for g, x in v.a])
            return mput(v, pe[1], self.setp(payload(mget(v, pe[1])), path[1:], new))
        inner = self.setp(self.proj(v, pe), path[1:], new)
        if k == 'last':
            if v.k == 'seq' and v.a and v.a[-1][0] == 'one' and v.a[-1][1] is TRUE:
                return seq(v.a[:-1] + (('one', TRUE, inner),))
            if v.k == 'call' and v.a[0] == 'upd_last':
                v = v.a[1]
            return call('upd_last', v, inner)
        if k == 'i':
            l = literal(v)
            if l is not None and pe[1].k == 'int' and pe[1].a[0] < len(l):
                l[pe[1].a[0]] = inner
                return ones(l)
            return call('upd_i', v, pe[1], inner)
        if k == 'e':
            while v.k == 'call' and v.a[0] == 'upd_e' and v.a[2] is pe[1]:
                v = v.a[1]
            return call('upd_e', v, pe[1], inner)
        if k == 'first' and v.k == 'seq' and v.a and v.a[0][0] == 'one' and v.a[0][1] is TRUE:
            return seq((('one', TRUE, inner),) + v.a[1:])
        return call('upd_' + k, v, inner)

    def rootval(self, st, root):
        v = st.get(root)
        if v is None:
            if root[0] == 'mem':
                return root[1]
            return UNDEF
        return v

    def loadp(self, st, root, path):
        v = self.rootval(st, root)
        for pe in path:
            v = self.proj(v, pe)
        return v

    def storep(self, st, root, path, new):
        if not path:
            st[root] = new
        else:
            st[root] = self.setp(self.rootval(st, root), path, new)

    def targets(self, v):
        """[(guard, root, path)] a reference value may denote; None when it is no reference"""
        if v.k == 'ref':
            return [(TRUE, v.a[0], v.a[1])]
        if v.k == 'gv' and any(x.k == 'ref' for _, x in v.a):
            r = []
            for g, x in v.a:
                if x.k == 'ref':
                    r.append((g, x.a[0], x.a[1]))
                elif x.k != 'undef':
                    r.append((g, ('mem', x), ()))
            return r
        return None

    def load(self, st, v):
        """the value behind a reference (other values stand for themselves)"""
        n = 0
        while n < 6:
            ts = self.targets(v)
            if ts is None:
                if ('mem', v) in st:
                    return st[('mem', v)]
                return v
            if len(ts) == 1:
                v = self.loadp(st, ts[0][1], ts[0][2])
            else:
                v = gv([(g, self.loadp(st, r, p)) for g, r, p in ts])
            n += 1
        return v

    def load1(self, st, v):
        ts = self.targets(v)
        if ts is None:
            return v
        if len(ts) == 1:
            return self.loadp(st, ts[0][1], ts[0][2])
        return gv([(g, self.loadp(st, r, p)) for g, r, p in ts])

    def store(self, st, ref, new):
        """write through a reference, following references to references"""
        for _ in range(6):
            ts = self.targets(ref)
            if ts is None:
                st[('mem', ref)] = new
                return
            inner = self.load1(st, ref)
            if self.targets(inner) is None:
                break
            ref = inner
        if len(ts) == 1:
            self.storep(st, ts[0][1], ts[0][2], new)
        else:
            for g, r, p in ts:
                self.storeg(st, g, r, p, new)

    def storeg(self, st, g, r, p, new):
        """write where g holds; what is no such variant stays what it is"""
        i = next((i for i, e in enumerate(p) if e[0] == 'f' and len(tm.VN.get(e[1], ())) > 1), len(p))
        old = self.loadp(st, r, p[:i])
        self.storep(st, r, p[:i], gv([(g, self.setp(old, p[i:], new)), (NOT(g), old)]))

    def subref(self, ref, *pe):
        """reference to a part of what ref denotes"""
        ts = self.targets(ref)
        if ts is None:
            return mk('ref', ('mem', ref), tuple(pe))
        return gv([(g, mk('ref', r, p + tuple(pe))) for g, r, p in ts])

    def flatref(self, st, v):
        """collapse a reference to a reference"""
        for _ in range(5):
            if self.targets(v) is None:
                return v
            w = self.load1(st, v)
            if self.targets(w) is None:
                return v
            v = w
        return v

    # ------------------------------------------------------------ places
    def place(self, F, st, p):
        """[(guard, root, path)], type index of the place"""
        tgs = [(TRUE, (F.fid, p[0]), ())]
        t = F.body['locals'][p[0]][0]
        vi = None
        for pe in p[1:]:
            if pe == '*':
                ty = self.ty(F, t)
                if ty['k'] in ('ref', 'refmut', 'ptr'):
                    t = ty['a'][0]
                elif ty['k'] == 'adt' and ty['a']:
                    t = ty['a'][0]
                new = []
                for g, r, q in tgs:
                    v = self.loadp(st, r, q)
                    ts = self.targets(v)
                    if ts is None:
                        if ty['k'] == 'refmut' and v.k not in ('agg', 'seq', 'undef', 'int', 'str', 'b'):
                            new.append((g, ('mem', v), ()))
                        else:
                            new.append((g, r, q))
                    else:
                        for g2, r2, q2 in ts:
                            gg = AND(g, g2)
                            if gg is not FALSE:
                                new.append((gg, r2, q2))
                tgs = new
                vi = None
                continue
            k = pe[0]
            if k == 'd':
                vi = pe[1]
                continue
            if k == 'f':
                ty = self.ty(F, t)
                if ty['k'] == 'adt':
                    owner = self.canon(ty['p'])
                    e = ('f', owner, vi or 0, pe[1])
                elif ty['k'] == 'tuple':
                    e = ('f', '()', 0, pe[1])
                else:
                    e = ('f', ty['p'] or ty['s'], 0, pe[1])
                t = pe[3]
                vi = None
                if e[1] in tm.TRANSPARENT:
                    continue
                tgs = [(g, r, q + (e,)) for g, r, q in tgs]
                # a field may itself hold the value a reference was collapsed to
                continue
            ty = self.ty(F, t)
            if ty['a']:
                t = ty['a'][0]
            if k == 'i':
                iv = self.rootval(st, (F.fid, pe[1]))
                tgs = [(g, r, q + (('i', iv),)) for g, r, q in tgs]
            elif k == 'ci':
                if pe[2] and pe[1] == 1:
                    tgs = [(g, r, q + (('last',),)) for g, r, q in tgs]
                elif pe[2]:
                    tgs = [(g, r, q + (('i', call('fromend', I(pe[1]))),)) for g, r, q in tgs]
                else:
                    tgs = [(g, r, q + (('i', I(pe[1])),)) for g, r, q in tgs]
            elif k == 'ss':
                tgs = [(g, r, q + (('ss', pe[1], pe[2]),)) for g, r, q in tgs]
                t = F.body['locals'][p[0]][0]
        return tgs, t, vi

    def read(self, F, st, p):
        if len(p) == 1:
            return self.rootval(st, (F.fid, p[0]))
        tgs, _, _ = self.place(F, st, p)
        if len(tgs) == 1:
            return self.loadp(st, tgs[0][1], tgs[0][2])
        return gv([(g, self.loadp(st, r, q)) for g, r, q in tgs])

    def write(self, F, st, p, v):
        if len(p) == 1:
            st[(F.fid, p[0])] = v
            return
        tgs, _, _ = self.place(F, st, p)
        if len(tgs) == 1:
            self.storep(st, tgs[0][1], tgs[0][2], v)
        else:
            for g, r, q in tgs:
                self.storeg(st, g, r, q, v)

    # ------------------------------------------------------------ operands
    def operand(self, F, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read(F, st, o['pl'])
        if k == 'int':
            t = self.ty(F, o['t'])['s'] if 't' in o else ''
            if t == 'bool':
                return TT if int(o['v']) else FF
            if t == 'char':
                try:
                    return S(chr(int(o['v'])))
                except ValueError:
                    return I(int(o['v']))
            return I(int(o['v']))
        if k == 'str':
            return S(o['v'])
        if k == 'fn':
            return mk('fnv', o['p'], o['r'], o.get('crate'), tuple((F.crate.name + ':' + F.crate.ctype, x) for x in o.get('a', [])))
        if k == 'bytes':
            return mk('bytes', tuple(o['v']))
        if k == 'promoted':
            return self.const_body(F, '%s::promoted[%d]' % (o['p'], o['i']))
        if k == 'static':
            if o['p'] in self.prog.bodies:
                return self.const_body(F, o['p'])
            return mk('const', o['p'])
        if o.get('name') and o['name'] in self.prog.bodies:
            return self.const_body(F, o['name'])
        if k == 'zst':
            t = self.ty(F, o['t']) if 't' in o else None
            if t and t['k'] == 'adt':
                return agg(self.canon(t['p']), 0)
            if t and t['k'] in ('closure', 'fndef'):
                if t['k'] == 'closure':
                    return agg(t['p'], 0)
                return mk('fnv', t['p'], t['p'], None, ())
            return UNIT
        if o.get('name'):
            return mk('const', o['name'])
        if k == 'mem' or k == 'slice' or k == 'ptr':
            return mk('const', str(sorted((a, str(b)) for a, b in o.items() if a != 't')))
        t = self.ty(F, o['t'])['s'] if 't' in o else ''
        return mk('const', 'unk:' + t)

    def const_body(self, F, key):
        b = self.prog.bodies.get(key)
        if F is not None:
            b = F.crate.bodies.get(key) or b
        if b is None:
            return mk('const', key)
        c = getattr(self, '_cb', None)
        if c is None:
            c = self._cb = {}
        k = id(b)
        if k not in c:
            c[k] = mk('const', key)
            saved = self.events
            self.events = []
            st = {}
            F2 = Frame(self.fid('const', key), b, (key,))
            v, _ = self.run_body(F2, st, TRUE)
            c[k] = self.load(st, v)
            # constants hold no references to their own locals
            c[k] = self.deepload(st, c[k])
            self.events = saved
        return c[k]

    def deepload(self, st, v, d=4):
        if d == 0:
            return v
        v = self.load(st, v)
        if v.k == 'agg':
            return agg(v.a[0], v.a[1], *[self.deepload(st, x, d - 1) for x in v.a[2:]])
        if v.k == 'seq' and all(p[0] == 'one' for p in v.a):
            return seq(tuple(('one', p[1], self.deepload(st, p[2], d - 1)) for p in v.a))
        return v

    # ------------------------------------------------------------ rvalues
    INTS = ('u32', 'usize', 'u64', 'i64', 'i32', 'isize', 'u128', 'i128')

    def rvalue(self, F, st, r, cond, span):
        k = r['k']
        if k == 'use':
            return self.operand(F, st, r['o'])
        if k == 'ref':
            tgs, t, _ = self.place(F, st, r['pl'])
            if not r['m']:
                if len(tgs) == 1:
                    return self.loadp(st, tgs[0][1], tgs[0][2])
                return gv([(g, self.loadp(st, a, q)) for g, a, q in tgs])
            return gv([(g, mk('ref', a, q)) for g, a, q in tgs])
        if k == 'agg':
            ops = [self.operand(F, st, o) for o in r['ops']]
            a = r['a']
            if a == 'array':
                return ones(ops)
            if a == 'tuple':
                return agg('()', 0, *ops)
            if a == 'adt':
                p = self.canon(r['p'])
                if p in tm.TRANSPARENT and len(ops) >= 1:
                    return ops[0]
                return agg(p, r['vi'], *ops)
            if a in ('closure', 'coroutine'):
                return agg(r['p'], 0, *ops)
            return ops[0] if ops else UNDEF
        if k == 'discr':
            v = self.read(F, st, r['pl'])
            _, t, _ = self.place(F, st, r['pl'])
            ty = self.ty(F, t)
            ad = self.prog.adts.get(ty['p']) if ty['k'] == 'adt' else None
            if ad is None:
                return call('discr', v)
            return mk('discr', v, self.canon(ty['p']), tuple(int(x) for x in ad['discr']) or (0,))
        if k == 'bin':
            return self.binop(r['op'], self.operand(F, st, r['a']), self.operand(F, st, r['b']))
        if k == 'un':
            v = self.operand(F, st, r['o'])
            if r['op'] == 'Not':
                if v.k in ('b',) or tm.isbool(v) or v.k in ('gv', 'call', 'f', 'lv', 'elem', 'sym', 'bool', 'find', 'last'):
                    return B(NOT(nb(v)))
                return call('not', v)
            if r['op'] == 'PtrMetadata':
                return length(self.load(st, v))
            if r['op'] == 'Neg':
                return sub(I(0), v)
            return call(r['op'], v)
        if k == 'cast':
            v = self.operand(F, st, r['o'])
            c = r['c']
            if 'IntToInt' in c:
                t = self.ty(F, r['t'])['s']
                if v.k == 'discr':
                    return self.discr_int(v)
                if v.k == 'int' or t in self.INTS:
                    if v.k == 'b':
                        return gv([(v.a[0], I(1)), (NOT(v.a[0]), I(0))])
                    return v
                return call('narrow', S(t), v)
            return v
        if k == 'repeat':
            return call('repeat', self.operand(F, st, r['o']))
        return mk('const', 'other@' + span)

    def discr_int(self, d):
        v, p, ds = d.a
        n = len(ds)
        return gv([(is_variant(v, i, n), I(x)) for i, x in enumerate(ds)])

    def binop(self, op, a, b):
        if a.k == 'discr':
            if b.k == 'int' and op in ('Eq', 'Ne'):
                n = self.discr_is(a, b.a[0])
                return B(n if op == 'Eq' else NOT(n))
            if b.k == 'discr' and op in ('Eq', 'Ne') and b.a[1] == a.a[1]:
                n = self.same_variant(a, b)
                return B(n if op == 'Eq' else NOT(n))
            a = self.discr_int(a)
        if b.k == 'discr':
            b = self.discr_int(b)
        if op == 'Eq':
            return B(eq(a, b))
        if op == 'Ne':
            return B(NOT(eq(a, b)))
        if op == 'Lt':
            return B(lt(a, b))
        if op == 'Le':
            return B(le(a, b))
        if op == 'Gt':
            return B(lt(b, a))
        if op == 'Ge':
            return B(le(b, a))
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op == 'AddWithOverflow':
            return tup(add(a, b), FF)
        if op == 'SubWithOverflow':
            return tup(sub(a, b), B(lt(a, b)))
        if op == 'MulWithOverflow':
            return tup(self.mul(a, b), FF)
        if op == 'Mul':
            return self.mul(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (tm.isbool(a) or tm.isbool(b) or a.k == 'gv'):
            x, y = nb(a), nb(b)
            return B(AND(x, y) if op == 'BitAnd' else OR(x, y) if op == 'BitOr' else bdd.XOR(x, y))
        if op == 'Cmp':
            return gv([(lt(a, b), agg(ORD, 0)), (eq(a, b), agg(ORD, 1)), (lt(b, a), agg(ORD, 2))])
        return call('op' + op, a, b)

    def mul(self, a, b):
        if a.k == 'int' and b.k == 'int':
            return I(a.a[0] * b.a[0])
        return call('mul', a, b)

    def discr_is(self, d, val):
        v, p, ds = d.a
        if val not in ds:
            return FALSE
        return is_variant(v, ds.index(val), len(ds))

    def same_variant(self, a, b):
        ds = a.a[2]
        return any_of(AND(is_variant(a.a[0], i, len(ds)), is_variant(b.a[0], i, len(ds))) for i in range(len(ds)))

    # ------------------------------------------------------------ states
    def merge(self, alts):
        """alts: [(cond, state)] -> (cond, state)"""
        alts = [(c, s) for c, s in alts if c is not FALSE]
        if not alts:
            return FALSE, {}
        if len(alts) == 1:
            return alts[0]
        C = tm.abbrev(any_of(c for c, _ in alts))
        gs = [simp(c, C) for c, _ in alts]
        base = alts[0][1]
        out = dict(base)
        diff = set()
        for _, s in alts[1:]:
            if s is base:
                continue
            for k, v in s.items():
                if base.get(k) is not v:
                    diff.add(k)
            if len(s) != len(base) or True:
                for k in base:
                    if k not in s:
                        diff.add(k)
        for k in diff:
            out[k] = gv([(g, self.rootval(s, k) if k[0] == 'mem' else s.get(k, UNDEF)) for g, (_, s) in zip(gs, alts)])
        return C, out

    # ------------------------------------------------------------ regions
    def region(self, F, cfg, blocks, entry, st, cond, header=None):
        pend = {entry: [(cond, st)]}
        exits = []
        backs = []
        first = True
        order = cfg.order
        for i in range(cfg.pos[entry], len(order)):
            b = order[i]
            if b not in pend or b not in blocks:
                continue
            alts = pend.pop(b)
            c, s = self.merge(alts)
            if c is FALSE:
                continue
            if len(alts) == 1:
                s = dict(s)
            if b in cfg.loops and b != header:
                outs = self.loop(F, cfg, b, s, c)
            else:
                outs = self.block(F, b, s, c)
            for t, c2, s2 in outs:
                if c2 is FALSE:
                    continue
                if t == header and t is not None:
                    backs.append((c2, s2))
                elif t == RET or t not in blocks:
                    exits.append((t, c2, s2))
                else:
                    pend.setdefault(t, []).append((c2, s2))
        return exits, backs

    def block(self, F, b, st, cond):
        self.steps += 1
        bl = F.body['blocks'][b]
        for s in bl['st']:
            if 'l' in s:
                v = self.rvalue(F, st, s['r'], cond, s.get('s', ''))
                if v.k == 'gv':
                    v = tm.prune(v, cond)
                self.write(F, st, s['l'], v)
            elif 'setd' in s:
                tgs, t, _ = self.place(F, st, s['setd'])
                ty = self.ty(F, t)
                if ty['k'] == 'adt' and len(tgs) == 1:
                    self.storep(st, tgs[0][1], tgs[0][2], agg(self.canon(ty['p']), s['v']))
        t = bl['t']
        k = t['k']
        if k == 'goto' or k == 'drop' or k == 'yield':
            return [(t['t'], cond, st)]
        if k == 'return':
            return [(RET, cond, st)]
        if k == 'switch':
            return self.switch(F, st, cond, t)
        if k == 'assert':
            self.do_assert(F, st, cond, t, bl['s'])
            return [(t['t'], cond, st)]
        if k == 'call':
            return self.do_call(F, b, st, cond, t, bl['s'])
        return []

    def switch(self, F, st, cond, t):
        d = self.operand(F, st, t['d'])
        out = []
        rest = TRUE
        for val, tgt in t['t']:
            val = int(val)
            if d.k == 'discr':
                n = self.discr_is(d, val)
            elif self.ty(F, t['ty'])['s'] == 'bool':
                n = nb(d)
                if not val:
                    n = NOT(n)
            elif self.ty(F, t['ty'])['s'] == 'char':
                n = eq(d, S(chr(val)))
            else:
                n = eq(d, I(val))
            n = AND(n, rest)
            rest = AND(rest, NOT(n))
            out.append((tgt, n))
        if d.k == 'discr' and len(t['t']) == len(d.a[2]):
            rest = FALSE
        out.append((t['o'], rest))
        res = []
        live = [(tgt, AND(cond, n)) for tgt, n in out]
        live = [(a, c) for a, c in live if c is not FALSE]
        for i, (tgt, c) in enumerate(live):
            res.append((tgt, c, st if i == len(live) - 1 else dict(st)))
        return res

    def do_assert(self, F, st, cond, t, span):
        m = t['m']
        if m.startswith('overflow') and m != 'overflow:Sub' and m != 'overflow:Neg':
            # sums of sizes cannot leave 64 bits; smaller numbers may be anything
            if t['c']['k'] in ('copy', 'move'):
                ty = F.crate.types[F.body['locals'][t['c']['pl'][0]][0]]
                if ty['k'] == 'tuple' and F.crate.types[ty['a'][0]]['s'] in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32'):
                    ops = [self.operand(F, st, o) for o in t['ops']]
                    if not all(o.k == 'int' for o in ops):
                        self.emit(F, 'panic', m, tuple(ops), (), UNIT, AND(cond, atom(mk('bool', tm.call('overflow', *ops)))), span)
            return
        ops = [self.operand(F, st, o) for o in t['ops']]
        c = nb(self.operand(F, st, t['c']))
        bad = NOT(c) if t['e'] else c
        if m == 'bounds':
            # len, index
            bad = NOT(lt(ops[1], ops[0]))
        elif m in ('divzero', 'remzero'):
            bad = eq(ops[0], I(0))
        c2 = AND(cond, bad)
        if c2 is not FALSE:
            self.emit(F, 'panic', m, tuple(ops), (), UNIT, c2, span)

    # ------------------------------------------------------------ loops
    def diff(self, a, b, path=()):
        """leaf paths at which b differs from a"""
        if a is b:
            return []
        if a.k == 'agg' and b.k == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == len(b.a) and len(a.a) > 2:
            r = []
            for i in range(2, len(a.a)):
                r.extend(self.diff(a.a[i], b.a[i], path + (('f', a.a[0], a.a[1], i - 2),)))
            return r
        if b.k == 'agg' and tm.NV.get(b.a[0], 1) == 1 and len(b.a) > 2 and a.k not in ('agg', 'undef'):
            r = []
            for i in range(2, len(b.a)):
                r.extend(self.diff(field(a, b.a[0], b.a[1], i - 2), b.a[i], path + (('f', b.a[0], b.a[1], i - 2),)))
            return r
        if b.k == 'upd' and a.k not in ('agg', 'undef'):
            pe = ('f',) + b.a[1]
            r = self.diff(a, b.a[0], path)
            r.extend(self.diff(field(a, *b.a[1]), b.a[2], path + (pe,)))
            return r
        return [path]

    def is_iter(self, v):
        return v.k == 'it'

    def iter_places(self, st, written):
        r = []
        for key, path in written:
            v = self.loadp(st, key, path)
            if v.k == 'it':
                r.append((key, path, v))
        return r

    def loop(self, F, cfg, h, st, cond):
        uid = self.fid('loop', F.fid, h)
        blocks = cfg.loops[h]

        def run(hst, c):
            return self.region(F, cfg, blocks, h, dict(hst), c, header=h)
        return self.loop_core(F, uid, run, st, cond)

    def loop_core(self, F, uid, run, st, cond):
        """analyse a loop; run(state, cond) -> (exits [(target, cond, state)], backs [(cond, state)])"""
        ev0 = len(self.events)
        # probe: what does one iteration change?
        exits, backs = run(dict(st), cond)
        if not backs:
            return exits
        # does the loop always leave after a concretely known number of rounds?
        _, bst = self.merge(backs)
        written = self.changed(st, bst)
        its = self.iter_places(st, written)
        if len(its) == 1 and its[0][2].k == 'it':
            del self.events[ev0:]
            r = self.iter_loop(F, uid, run, st, cond, its[0])
            if r is not None:
                return r
            del self.events[ev0:]
        del self.events[ev0:]
        return self.gen_loop(F, uid, run, st, cond, written)

    def changed(self, st, bst):
        w = []
        for k, v in bst.items():
            o = st.get(k)
            if o is None:
                if k[0] == 'mem':
                    w.append((k, ()))
                continue
            if o is not v:
                for p in self.diff(o, v):
                    w.append((k, p))
        return w

    def havoc(self, st, written, uid, lvs):
        h = dict(st)
        for key, path in written:
            v = mk('lv', uid, key, path)
            lvs[v] = (key, path, self.loadp(st, key, path))
            self.storep(h, key, path, v)
        return h

    def cover(self, written, new):
        """add new leaf paths, keeping only the shortest of nested ones"""
        out = list(written)
        ch = False
        for k, p in new:
            if any(k == k2 and p[:len(p2)] == p2 for k2, p2 in out):
                continue
            out = [(k2, p2) for k2, p2 in out if not (k == k2 and p2[:len(p)] == p)]
            out.append((k, p))
            ch = True
        return out, ch

    def fix(self, uid, run, st, cond, written, skip=None):
        """iterate until the set of changed places is stable"""
        for n in range(12):
            ev0 = len(self.events)
            lvs = {}
            h = self.havoc(st, written, uid, lvs)
            if skip:
                skip(h)
            exits, backs = run(dict(h), cond)
            new = []
            if backs:
                C, bst = self.merge(backs)
                for k, v in bst.items():
                    o = h.get(k)
                    if o is None:
                        if k[0] == 'mem':
                            new.append((k, ()))
                        continue
                    if o is not v:
                        for p in self.diff(o, v):
                            new.append((k, p))
            if skip:
                new = [(k, p) for k, p in new if not self.is_skip(skip, k, p)]
            written2, ch = self.cover(written, new)
            if not ch:
                return exits, backs, h, lvs, written, ev0
            written = written2
            del self.events[ev0:]
        self.notes.append('loop %s does not stabilise' % uid)
        return exits, backs, h, lvs, written, ev0

    def is_skip(self, skip, k, p):
        return getattr(skip, 'place', None) == (k, p)

    def gen_loop(self, F, uid, run, st, cond, written):
        exits, backs, h, lvs, written, ev0 = self.fix(uid, run, st, cond, [w for w in self.cover([], written)[0]])
        if backs:
            C, bst = self.merge(backs)
            for lv, (key, path, init) in lvs.items():
                self.lvinfo[lv] = (init, self.loadp(bst, key, path), None)
        for e in self.events[ev0:]:
            e.loops = ((None, uid),) + e.loops
        return exits

    MAXUNROLL = 64

    def iter_loop(self, F, uid, run, st, cond, itp):
        key, path, it = itp
        src, pos = it.a
        parts = parts_of(src)
        if src.k == 'gv':
            parts = (('all', src),)
        if len([p for p in parts if p[0] == 'one']) > self.MAXUNROLL:
            parts = (('all', src),)
            pos = 0 if pos else pos
        if pos:
            if all(p[0] == 'one' and p[1] is TRUE for p in parts[:pos]) and len(parts) >= pos:
                parts = parts[pos:]
            else:
                rest = self.models.past(src, pos)
                parts = parts_of(rest) if rest is not None else (('all', call('skip', src, I(pos))),)
        outs = []
        cur = (cond, dict(st))
        for pi, p in enumerate(parts):
            if cur[0] is FALSE:
                break
            c, s = cur
            if p[0] == 'one':
                saved = self.unroll
                self.unroll = self.unroll + ((uid, pi),)
                s1 = dict(s)
                self.storep(s1, key, path, mk('it1', uid, p[2]))
                ex, backs = run(s1, AND(c, p[1]))
                self.unroll = saved
                if any(self.loadp(bs, key, path).k != 'itu' for _, bs in backs):
                    return None
                for t, c2, s2 in ex:
                    outs.append((t, c2, s2))
                alts = list(backs)
                if p[1] is not TRUE:
                    alts.append((AND(c, NOT(p[1])), s))
                cur = self.merge(alts)
                cur = (cur[0], dict(cur[1]))
                continue
            # one symbolic element of the rest
            pu = self.fid('part', uid, pi)
            r = self.sym_part(F, pu, run, s, c, key, path, p)
            if r is None:
                return None
            outs.extend(r[0])
            cur = r[1]
        c, s = cur
        if c is not FALSE:
            s = dict(s)
            self.storep(s, key, path, mk('itend', uid))
            ex, backs = run(s, c)
            for t, c2, s2 in ex:
                outs.append((t, c2, s2))
            if backs:
                return None
        return outs

    def binders_of(self, pu, p):
        """fresh element(s) for a sequence part: binders, guard, value"""
        if p[0] == 'all':
            e = mk('elem', p[1], pu)
            return (e,), TRUE, e
        m = {}
        bs = []
        for i, b in enumerate(p[1]):
            nbd = mk('elem', subst(b.a[0], m) if m else b.a[0], self.fid('b', pu, i))
            m[b] = nbd
            bs.append(nbd)
        return tuple(bs), subst(p[2], m), subst(p[3], m)

    def sym_part(self, F, pu, run, st, cond, key, path, p):
        bs, g, x = self.binders_of(pu, p)

        class Skip(object):
            place = (key, path)

            def __call__(s, h):
                self.storep(h, key, path, mk('it1', pu, x))
        skip = Skip()
        # probe for written places
        ev0 = len(self.events)
        s1 = dict(st)
        skip(s1)
        cin = AND(cond, g)
        if cin is FALSE:
            return [], (cond, st)
        ex, backs = run(s1, cin)
        written = []
        if backs:
            _, bst = self.merge(backs)
            written = [w for w in self.changed(st, bst) if w != (key, path)]
            written = self.cover([], written)[0]
        if any(self.loadp(bs_, key, path).k != 'itu' for _, bs_ in backs):
            return None
        if written:
            del self.events[ev0:]
            ex, backs, h, lvs, written, ev0 = self.fix(pu, run, st, cin, written, skip)
            if any(self.loadp(bs_, key, path).k != 'itu' for _, bs_ in backs):
                return None
        else:
            lvs = {}
            h = st
        for e in self.events[ev0:]:
            e.loops = tuple((b, pu) for b in bs) + e.loops
        # leaving early: some element satisfies the condition of leaving
        outs = []
        brk = FALSE
        for t, c2, s2 in ex:
            rel = simp(c2, cond)
            # the loop-carried values at the time of leaving are unknown
            brk = OR(brk, rel)
        nb_ = exists(bs, brk)
        self.leaves[pu] = (bs, brk)
        left = self.left(bs)
        for t, c2, s2 in ex:
            rel = simp(c2, cond)
            if left is not None:
                # as it is where the loop is left, in terms of the element it is left at
                outs.append((t, AND(cond, AND(left, rel)), s2))
                continue
            cc = AND(cond, exists(bs, rel))
            m = self.find_map(bs, rel)
            s3 = self.sub_state(s2, m)
            outs.append((t, cc, s3))
        # ran to the end
        cend = AND(cond, NOT(nb_ if left is None else left))
        s = dict(st)
        if backs and written:
            C, bst = self.merge(backs)
            R = simp(C, cond)
            clos = {}
            for lv, (k, pth, init) in lvs.items():
                step = self.loadp(bst, k, pth)
                step = gv([(R, step), (NOT(R), lv)]) if R is not TRUE else step
                clos[lv] = self.close(lv, init, step, bs) if left is None else lv
                self.lvinfo[lv] = (init, step, bs)
            for lv, (k, pth, init) in lvs.items():
                self.storep(s, k, pth, clos[lv])
        return outs, (cend, s)

    def left(self, bs):
        """the condition that stands for leaving this loop early, where what the loop leaves behind is to be a function of
        its own state"""
        return None

    def find_map(self, bs, rel):
        m = {}
        for i, b in enumerate(bs):
            m[b] = tm.mkfind(bs, rel, b)
        return m

    def sub_state(self, st, m):
        out = {}
        dom = frozenset(m)
        memo = {}
        for k, v in st.items():
            if v.fv & dom:
                v = tm._sub(v, m, dom, memo)
            out[k] = v
        return out

    def close(self, lv, init, step, bs):
        """value of a loop-carried place after the loop, from its value after one round"""
        if step is lv:
            return init
        only = frozenset([lv])
        if step.k == 'b':
            n = step.a[0]
            la = atom(mk('bool', lv))
            if n.v != BIG:
                i = la.v
                f0, f1 = bdd.cof(n, i, 0), bdd.cof(n, i, 1)
                if not (tm.nfv(f0) & only) and not (tm.nfv(f1) & only):
                    ini = nb(init)
                    if f1 is TRUE:
                        return B(OR(ini, exists(bs, f0)))
                    if f0 is FALSE:
                        return B(AND(ini, NOT(exists(bs, NOT(f1)))))
            elif not (step.fv & only):
                # constant assignment in every round
                ne = exists(bs, TRUE)
                return gv([(ne, step), (NOT(ne), init)])
        if step.k == 'seq' and step.a and step.a[0] == ('all', lv):
            rest = self.grown(lv, step, bs, TRUE)
            if rest is not None:
                return seq(parts_of(init) + rest)
        if step.k == 'cat' and step.a[0] is lv and not any(x.fv & only for x in step.a[1:]):
            return cat(init, tm.mkbind('catfor', bs, TRUE, cat(*step.a[1:])))
        if step.k == 'gv':
            keep = any_of(g for g, v in step.a if v is lv)
            others = [(g, v) for g, v in step.a if v is not lv]
            if len(others) == 1 and others[0][1].k == 'seq' and others[0][1].a and others[0][1].a[0] == ('all', lv) and not (tm.nfv(others[0][0]) & only):
                rest = self.grown(lv, others[0][1], bs, others[0][0])
                if rest is not None:
                    return seq(parts_of(init) + rest)
            if others:
                G = any_of(g for g, _ in others)
                val = gv([(simp(g, G), v) for g, v in others])
                if not (val.fv & only) and not (tm.nfv(G) & only):
                    ch = exists(bs, G)
                    return gv([(ch, tm.mkbind('last', bs, G, val)), (NOT(ch), init)])
                if not (val.fv & only) and tm.is_some(init) is FALSE and tm.is_some(val) is TRUE:
                    # the first one is kept
                    i = mk('isv', lv, 1)
                    on = next((j for j in sup(G) if ATOMS[j] is i), None)
                    if on is not None:
                        G0 = bdd.cof(G, on, 0)
                        if bdd.cof(G, on, 1) is FALSE and not (tm.nfv(G0) & only):
                            ch = exists(bs, G0)
                            return gv([(ch, tm.mkbind('find', bs, G0, val)), (NOT(ch), init)])
                if val.k == 'put' and val.a[0] is lv:
                    return tm.mkmfor(init, bs, G, val.a[1], val.a[2])
                if len(others) == 1 and val.k == 'cat' and val.a[0] is lv and not any(x.fv & only for x in val.a[1:]):
                    return cat(init, tm.mkbind('catfor', bs, G, cat(*val.a[1:])))
        if step.k == 'put' and step.a[0] is lv:
            return tm.mkmfor(init, bs, TRUE, step.a[1], step.a[2])
        if not (step.fv & only):
            ne = exists(bs, TRUE)
            return gv([(ne, tm.mkbind('last', bs, TRUE, step)), (NOT(ne), init)])
        return lv

    def grown(self, lv, step, bs, G):
        """what a loop adds to a sequence, one part after the other per round"""
        rest = step.a[1:]
        only = frozenset([lv])
        if any(tm._fv_of(p) & only for p in rest):
            return None
        out = []
        for p in rest:
            if p[0] == 'one':
                out.append(('for', bs, AND(G, p[1]), p[2]))
            elif p[0] == 'for':
                out.append(('for', bs + p[1], AND(G, p[2]), p[3]))
            else:
                e2 = mk('elem', p[1], self.fid('flat', lv))
                out.append(('for', bs + (e2,), G, e2))
        return tuple(tm.normpart(p) for p in out)

    # ------------------------------------------------------------ iteration by library functions
    def iterate(self, F, src, st, cond, site, body, accs):
        """run body(value, state, cond) -> [('next'|'break', cond, state)] for every element of the
        sequence src; accs: pseudo locals {name: initial value}.  Returns (exits, end) where exits is a list of
        (cond, state) of early exits and end the (cond, state) after the last element."""
        uid = self.fid('iter', F.fid, site)
        itk = ('it', uid)
        s0 = dict(st)
        s0[itk] = mk('it', src, 0)
        for k, v in accs.items():
            s0[k] = v

        def run(s, c):
            it = s[itk]
            if it.k == 'itend':
                return [('end', c, s)], []
            if it.k != 'it1':
                # probing
                x = call('first', src)
            else:
                x = it.a[1]
            s = dict(s)
            s[itk] = mk('itu', uid)
            ex, backs = [], []
            for kind, c2, s2 in body(x, s, c):
                if kind == 'next':
                    backs.append((c2, s2))
                else:
                    ex.append(('brk', c2, s2))
            return ex, backs
        r = self.iter_loop(F, uid, run, s0, cond, (itk, (), s0[itk]))
        brk = [(c, s) for t, c, s in r if t == 'brk' and c is not FALSE]
        end = [(c, s) for t, c, s in r if t == 'end' and c is not FALSE]
        if end:
            c, s = self.merge(end)
        else:
            c, s = FALSE, s0
        return brk, (c, s), itk

    # ------------------------------------------------------------ calls
    def run_body(self, F, st, cond):
        """run F.body; arguments are already in st.  Returns (value, cond); st is updated."""
        self.visited.add(F.body['key'])
        cfg = self.cfg(F.body)
        if cfg.irreducible:
            self.notes.append('irreducible control flow in ' + F.body['key'])
        exits, _ = self.region(F, cfg, set(cfg.order), 0, dict(st), cond)
        rets = [(c, s) for t, c, s in exits if t == RET]
        c, s = self.merge(rets)
        if c is FALSE:
            return UNDEF, FALSE
        v = s.get((F.fid, 0), UNIT)
        fid = F.fid
        st.clear()
        for k, x in s.items():
            if k[0] != fid:
                st[k] = x
        # keep own locals that the result still refers to
        if v.k != 'undef':
            self.keep_refs(s, st, v, fid)
        return v, c

    def keep_refs(self, s, st, v, fid):
        for x in subterms(v):
            if x.k == 'ref' and x.a[0][0] == fid and x.a[0] not in st and x.a[0] in s:
                st[x.a[0]] = s[x.a[0]]
                self.keep_refs(s, st, s[x.a[0]], fid)

    MAXDEPTH = 40

    def call_local(self, F, body, args, st, cond, site):
        key = body['key']
        if key in self.cut:
            r = call('fn:' + key, *[self.load(st, a) for a in args])
            self.emit(F, 'call', 'fn:' + key, tuple(self.load(st, a) for a in args), tuple(args), r, cond, str(site))
            return r, cond
        if F.stack.count(key) > 0 or len(F.stack) > self.MAXDEPTH:
            self.notes.append('recursion at ' + key)
            for i, a in enumerate(args):
                if self.targets(a) is not None:
                    self.store(st, a, call('mut', S(key), I(i), self.load(st, a)))
            r = call('rec:' + key, *[self.load(st, a) for a in args])
            self.emit(F, 'call', 'recursive:' + key, tuple(args), tuple(args), r, cond, site if isinstance(site, str) else '')
            return r, cond
        fid = self.fid('call', F.fid, site, key)
        F2 = Frame(fid, body, F.stack + (key,))
        if body['kind'] in ('closure',) and len(args) == 2 and body['argc'] != 2 or \
                (body['kind'] == 'closure' and len(args) == 2 and self.spread(body)):
            pass
        for i in range(body['argc']):
            st[(fid, i + 1)] = args[i] if i < len(args) else UNDEF
        if body['kind'] not in ('fn', 'method'):
            return self.run_body(F2, st, cond)
        given = tuple(self.load(st, a) for a in args)
        v, c = self.run_body(F2, st, cond)
        self.emit(F, 'local', key, given, tuple(args), v, cond, site if isinstance(site, str) else '', extra=body)
        return v, c

    def spread(self, body):
        return False

    def closure_args(self, body, clos, args):
        """MIR closures take their arguments one by one after the environment"""
        return [clos] + list(args)

    def callv(self, F, f, args, st, cond, site):
        """call a closure or function value; returns the result, st is updated"""
        if cond is FALSE:
            return UNDEF
        f = self.load(st, f)
        if f.k == 'gv':
            res = []
            alts = []
            for g, x in f.a:
                c = AND(cond, g)
                if c is FALSE:
                    continue
                s = dict(st)
                res.append((g, self.callv(F, x, args, s, c, (site, x.id if False else len(res)))))
                alts.append((c, s))
            c, s = self.merge(alts)
            st.clear()
            st.update(s)
            return gv(res)
        if f.k == 'agg':
            b = F.crate.bodies.get(f.a[0]) or self.prog.bodies.get(f.a[0])
            if b is not None:
                v, c = self.call_local(F, b, self.closure_args(b, f, args), st, cond, site)
                return v
        if f.k == 'fnv':
            v, c = self.dispatch(F, f.a[0], f.a[1], f.a[3], list(args), st, cond, site, '', None)
            return v
        r = call('apply', f, *[self.load(st, a) for a in args])
        self.emit(F, 'call', 'apply', tuple(args), tuple(args), r, cond, str(site))
        return r

    def branch(self, st, cond, alts):
        """alts: [(guard, fn(state, cond) -> value)]; runs each on its own copy and merges"""
        vals = []
        sts = []
        for g, fn in alts:
            c = AND(cond, g)
            if c is FALSE:
                continue
            s = dict(st)
            v = fn(s, c)
            vals.append((c, v))
            sts.append((c, s))
        if not sts:
            return UNDEF
        C, s = self.merge(sts)
        st.clear()
        st.update(s)
        return gv([(simp(c, C), v) for c, v in vals])

    def do_call(self, F, b, st, cond, t, span):
        args = [self.operand(F, st, a) for a in t['args']]
        f = t['f']
        if f['k'] == 'fn':
            gens = tuple((F.crate.name + ':' + F.crate.ctype, x) for x in f.get('a', []))
            v, c = self.dispatch(F, f['p'], f['r'], gens, args, st, cond, b, t.get('fs') or span, t)
        else:
            fv = self.operand(F, st, f)
            v = self.callv(F, fv, args, st, cond, b)
            c = cond
        if t['t'] < 0:
            return []
        if c is FALSE:
            return []
        if v.k == 'gv':
            v = tm.prune(v, c)
        self.write(F, st, t['d'], v)
        return [(t['t'], c, st)]

    def gtype(self, g):
        for c in self.prog.crates:
            if g[0] == c.name + ':' + c.ctype:
                return c, c.types[g[1]]
        raise KeyError(g)

    def local_body(self, F, p, r):
        for k in (r, p):
            if not k:
                continue
            b = F.crate.bodies.get(k)
            if b is None:
                b = self.prog.bodies.get(k)
            if b is not None and b['kind'] in ('fn', 'method', 'closure', 'coroutine'):
                return b
        return None

    def dispatch(self, F, p, r, gens, args, st, cond, site, span, t):
        b = self.local_body(F, p, r)
        n = facts.norm(p)
        # a closure takes its arguments out of their tuple
        if b is not None and not n.endswith(('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')):
            if b.get('derived'):
                v = self.models.derived(self, F, b, n, args, st, cond, gens)
                if v is not None:
                    return v, cond
            return self.call_local(F, b, args, st, cond, site)
        if p == r or not r:
            pass
        return self.models.external(self, F, n, p, r, gens, args, st, cond, site, span, t)

    # ------------------------------------------------------------ entry
    def entry(self, key, args=None, name=None):
        body = self.prog.bodies[key]
        st = {}
        fid = self.fid('entry', key)
        F = Frame(fid, body, (key,))
        vals = []
        for i in range(body['argc']):
            ty = body['crate'].types[body['locals'][i + 1][0]]
            nm_ = body['locals'][i + 1][1] or 'arg%d' % (i + 1)
            if args and i < len(args) and args[i] is not None:
                v = args[i]
            else:
                v = sym(nm_)
            if ty['k'] == 'refmut':
                root = ('arg', i)
                st[root] = v
                v = mk('ref', root, ())
            st[(fid, i + 1)] = v
        v, c = self.run_body(F, st, TRUE)
        return v, c, st
